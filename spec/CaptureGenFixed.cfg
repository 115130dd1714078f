CONSTANT Settable = FALSE
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
