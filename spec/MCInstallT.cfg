SPECIFICATION Spec
CONSTANTS MaxLat = 4
 MaxIns = 3
INVARIANT Contiguous
PROPERTIES TotalKept OthersKept
CHECK_DEADLOCK FALSE
