SPECIFICATION Spec
INVARIANTS Right NoTrace
CONSTANTS
  Parts = 3
  Calls = 4
  Early = TRUE
  Skip = FALSE
