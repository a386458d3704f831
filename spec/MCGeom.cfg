SPECIFICATION Spec
CONSTANTS MaxKids = 2
 MaxOps = 1
 Show = TRUE
CHECK_DEADLOCK FALSE
