CONSTANTS
  Promise = TRUE
  MaxN = {1}
  MaxE = 0
  MaxC = 0
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
