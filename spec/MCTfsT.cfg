SPECIFICATION Spec
CONSTANTS N = 5
 Show = TRUE
CHECK_DEADLOCK FALSE
