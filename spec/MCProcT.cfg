SPECIFICATION Spec
CONSTANTS MaxOps = 5
 Show = TRUE
CHECK_DEADLOCK FALSE
