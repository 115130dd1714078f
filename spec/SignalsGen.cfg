CONSTANT Small = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT Sound
CONSTRAINT Few
CHECK_DEADLOCK FALSE
