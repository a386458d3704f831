SPECIFICATION Spec
CONSTANTS MaxKids = 2
 MaxOps = 2
 Show = TRUE
CHECK_DEADLOCK FALSE
