CONSTANT Small = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
