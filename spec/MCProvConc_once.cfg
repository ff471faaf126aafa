SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Once = TRUE Separate = TRUE
CONSTANT Queries <- Q
INVARIANT Right
PROPERTY Ends
