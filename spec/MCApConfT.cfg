SPECIFICATION Spec
CONSTANTS NEl = 2
 NRow = 3
 Show = TRUE
CHECK_DEADLOCK FALSE
