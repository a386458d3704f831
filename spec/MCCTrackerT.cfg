SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxOps = 6
INVARIANTS Exits Entrances OneMore Time Bounds
CHECK_DEADLOCK FALSE
