CONSTANT Slots = {1, 2}
INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
