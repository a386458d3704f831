SPECIFICATION Spec
CONSTANTS MaxOps = 5
 Emit = TRUE
INVARIANTS Contiguous FramesContiguous
CHECK_DEADLOCK FALSE
