SPECIFICATION Spec
CONSTANTS MaxP = 4
 MaxS = 4
INVARIANT Agrees
CHECK_DEADLOCK FALSE
