SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 6 Show = FALSE
