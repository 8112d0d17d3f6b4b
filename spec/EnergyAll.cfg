SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Value = TRUE
 Sens = TRUE
