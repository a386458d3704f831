SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 Show = TRUE
CHECK_DEADLOCK FALSE
