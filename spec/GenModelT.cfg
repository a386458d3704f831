SPECIFICATION Spec
CONSTANTS MaxOps = 6
 Emit = TRUE
INVARIANTS Contiguous FramesContiguous
CHECK_DEADLOCK FALSE
