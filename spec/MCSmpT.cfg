SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 5 Show = FALSE
