SPECIFICATION Spec
CONSTANTS N = 3
 Show = TRUE
INVARIANT Laws
CHECK_DEADLOCK FALSE
