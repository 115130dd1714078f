CONSTANTS
  Promise = TRUE
  MaxN = {1, 2, 3, 7}
  MaxE = 100
  MaxC = 8
  Depth = 26
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
