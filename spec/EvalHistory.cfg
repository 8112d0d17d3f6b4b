SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Objects = {1, 2}
 Points = {1, 2, 3}
 Depth = 3
INVARIANTS HistoryFree MemoryIsLast Emit
