SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Sound Rejects Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
