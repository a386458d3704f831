SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 7 Show = FALSE
