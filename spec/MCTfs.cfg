SPECIFICATION Spec
CONSTANTS N = 4
 Show = TRUE
CHECK_DEADLOCK FALSE
