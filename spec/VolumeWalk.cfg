CONSTANTS
 Producers = {1, 2, 3, 4}
 SinkIds = {1, 2, 3}
 Counts = {1, 10, 1500, 20000, 70000}
 Sizes = {0, 300}
 MaxTotal = 400000
 CallCounts = {1, 3000, 20000}
 MaxOps = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
