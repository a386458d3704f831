SPECIFICATION Spec
CONSTANTS MaxOps = 6
 Emit = FALSE
VIEW Sized
INVARIANTS Contiguous FramesContiguous FramesNest FramesClosed RingVisitsOnce QueriesTotal
CHECK_DEADLOCK FALSE
