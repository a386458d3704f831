SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 What = "optics"
Kinds = {"drift", "qf", "qd", "bend", "cf", "cor", "skew", "sol"}
