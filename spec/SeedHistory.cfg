SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Objects = {1, 2, 3}
 Depth = 5
INVARIANT Emit
PROPERTY Frame
