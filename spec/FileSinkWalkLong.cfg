CONSTANTS
  Promise = TRUE
  MaxN = {50, 100}
  MaxE = 1000
  MaxC = 3
  Depth = 260
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
