SPECIFICATION Spec
CONSTANTS N = 3
 NK = 3
 Grid = 4
 Gaps = {0, 3}
 Show = TRUE
CHECK_DEADLOCK FALSE
