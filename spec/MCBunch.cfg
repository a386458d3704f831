SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3 Show = TRUE
