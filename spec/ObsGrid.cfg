SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 26
 Rate = 8
INVARIANTS Increasing Inside Even Emit
