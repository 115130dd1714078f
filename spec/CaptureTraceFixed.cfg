CONSTANT Settable = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
