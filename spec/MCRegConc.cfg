SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Scripts = 2 Recheck = TRUE
INVARIANTS Shared Registered Spellings AtEnd
PROPERTY Ends
