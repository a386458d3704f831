SPECIFICATION Spec
CONSTANTS MaxP = 6
 MaxS = 5
INVARIANT Agrees
CHECK_DEADLOCK FALSE
