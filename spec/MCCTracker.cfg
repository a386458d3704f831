SPECIFICATION Spec
CONSTANTS MaxLen = 2
 MaxOps = 5
INVARIANTS Exits Entrances OneMore Time Bounds
CHECK_DEADLOCK FALSE
