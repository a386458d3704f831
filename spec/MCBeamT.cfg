SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Deep = TRUE Show = TRUE
