SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Value = FALSE
 Sens = TRUE
