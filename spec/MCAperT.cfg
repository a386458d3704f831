SPECIFICATION Spec
CONSTANTS N = 4
 NK = 3
 Grid = 5
 Gaps = {0, 1, 4}
 Show = TRUE
CHECK_DEADLOCK FALSE
