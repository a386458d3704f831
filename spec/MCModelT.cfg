SPECIFICATION Spec
CONSTANTS MaxOps = 7
 Emit = FALSE
VIEW Sized
INVARIANTS Contiguous FramesContiguous FramesNest FramesClosed RingVisitsOnce QueriesTotal
CHECK_DEADLOCK FALSE
