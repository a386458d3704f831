SPECIFICATION Spec
CONSTANTS NNum = 6
 NLine = 7
 Show = TRUE
INVARIANT Checked
CHECK_DEADLOCK FALSE
