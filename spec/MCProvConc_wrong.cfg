SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Once = FALSE Separate = FALSE
CONSTANT Queries <- Q
INVARIANT Right
PROPERTY Ends
