SPECIFICATION Spec
CONSTANTS N = 4
 Show = FALSE
INVARIANT Laws
CHECK_DEADLOCK FALSE
