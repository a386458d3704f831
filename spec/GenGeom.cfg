SPECIFICATION Spec
CONSTANTS MaxKids = 1
 MaxOps = 2
 Show = TRUE
CHECK_DEADLOCK FALSE
