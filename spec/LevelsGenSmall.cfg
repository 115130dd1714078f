CONSTANT Small = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
