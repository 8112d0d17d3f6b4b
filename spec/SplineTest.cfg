SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Reproduces Interpolates Smooth NotAKnot
