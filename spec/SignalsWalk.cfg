CONSTANT Depth = 14
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
