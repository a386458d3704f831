SPECIFICATION Spec
CONSTANTS MaxLat = 3
 MaxIns = 2
INVARIANT Contiguous
PROPERTIES TotalKept OthersKept
CHECK_DEADLOCK FALSE
