SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3 What = "optics"
Kinds = {"drift", "qf", "qd", "bend", "cf", "cor", "skew", "sol"}
