SPECIFICATION TraceSpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
