SPECIFICATION Spec
CONSTANTS NEl = 2
 NRow = 2
 Show = TRUE
CHECK_DEADLOCK FALSE
