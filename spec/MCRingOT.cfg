SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 5 What = "optics"
Kinds = {"drift", "qf", "qd", "bend"}
