CONSTANTS
 Threads = {1,2,3}
 Bg = 9
 Items = {1,2}
 Tasks = {1,2}
 MaxOps = 3
INIT Init
NEXT Next
INVARIANTS FIFO Tasking Kept Futures NothingLost
CHECK_DEADLOCK FALSE
