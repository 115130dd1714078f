CONSTANT Dynamic = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
