SPECIFICATION Spec
CONSTANTS MaxKids = 3
 MaxOps = 2
 Show = FALSE
CHECK_DEADLOCK FALSE
