SPECIFICATION Spec
CONSTANTS
 Ids0 = {0, 1, 2}
 MaxOps = 4
 Show = TRUE
CHECK_DEADLOCK FALSE
