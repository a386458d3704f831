SPECIFICATION Spec
CONSTANTS N = 5
 Show = FALSE
CHECK_DEADLOCK FALSE
