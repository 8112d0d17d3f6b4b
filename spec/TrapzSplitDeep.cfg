SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 9
INVARIANTS Whole Emit
