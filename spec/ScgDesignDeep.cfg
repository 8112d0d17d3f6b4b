SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxIt = 4
 Replies = {"worse", "better", "vanish", "equal", "slight", "infinite", "nan"}
INVARIANTS NeverWorse Monotone Recorded Counters WithinLimit Emit
