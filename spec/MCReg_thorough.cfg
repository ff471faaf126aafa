SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Sound Rejects Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
