SPECIFICATION RunSpec
CHECK_DEADLOCK FALSE
