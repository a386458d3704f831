SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 Show = TRUE
