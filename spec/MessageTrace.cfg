CONSTANT Slots = {1, 2}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
