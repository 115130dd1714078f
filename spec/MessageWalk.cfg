CONSTANT Slots = {1, 2, 3, 4}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
