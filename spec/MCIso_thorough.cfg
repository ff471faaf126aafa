SPECIFICATION Spec
CONSTANTS
  Years = {0, 1, 4, 100, 400, 999, 1600, 1700, 1868, 1900, 1970, 2000, 2023, 2024, 2100, 9999, 10000, 12345, 12400, 99999}
  Before0 = {1, 4, 44, 100, 400, 9999, 10000, 12345}
  Months = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,99}
  Days = {0,1,2,9,10,19,20,27,28,29,30,31,32,40,99}
  Hours = {0,1,2,9,10,11,12,13,19,20,21,22,23,24,25,30,99}
  Minutes = {0, 7, 59, 60, 61}
  Seconds = {0, 8, 59, 60, 61, 62}
INVARIANTS Right Emit
