SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 7
INVARIANTS Whole Emit
