CONSTANTS
  Promise = TRUE
  MaxN = {1, 2}
  MaxE = 3
  MaxC = 2
INIT Init
NEXT Next
VIEW Small
INVARIANT Sound
CONSTRAINT Lazy
CHECK_DEADLOCK FALSE
