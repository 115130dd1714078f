CONSTANTS
  Promise = TRUE
  MaxN = {1, 2, 3}
  MaxE = 5
  MaxC = 0
INIT Init
NEXT Next
VIEW View
INVARIANT Sound
CONSTRAINT Lazy
CHECK_DEADLOCK FALSE
