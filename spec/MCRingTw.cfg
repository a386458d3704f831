SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 What = "twiss"
Kinds = {"drift", "qf", "qd", "bend"}
