SPECIFICATION Spec
CONSTANTS NNum = 4
 NLine = 5
 Show = TRUE
INVARIANT Checked
CHECK_DEADLOCK FALSE
