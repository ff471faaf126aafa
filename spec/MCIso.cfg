SPECIFICATION Spec
CONSTANTS
  Years = {1, 1900, 1970, 2000, 2023, 2024, 9999, 12345}
  Before0 = {44, 12345}
  Months = {0, 1, 2, 4, 6, 9, 11, 12, 13}
  Days = {0, 1, 28, 29, 30, 31, 32}
  Hours = {0, 5, 23, 24, 25}
  Minutes = {0, 7, 59, 60, 61}
  Seconds = {0, 8, 59, 60, 61, 62}
INVARIANTS Right Emit
