SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 10 Show = FALSE
