SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 60
 Rate = 16
INVARIANTS Increasing Inside Even Emit
