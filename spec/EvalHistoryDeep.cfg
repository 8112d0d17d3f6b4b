SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Objects = {1, 2}
 Points = {1, 2}
 Depth = 4
INVARIANTS HistoryFree MemoryIsLast Emit
