CONSTANT Small = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT Sound
CONSTRAINT Few
CHECK_DEADLOCK FALSE
