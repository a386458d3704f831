SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
 Show = TRUE
CHECK_DEADLOCK FALSE
