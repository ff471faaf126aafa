SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Once = FALSE Separate = TRUE
CONSTANT Queries <- Q
INVARIANT Right
PROPERTY Ends
