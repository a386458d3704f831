SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Deep = FALSE Show = TRUE
