SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 5 What = "twiss"
Kinds = {"drift", "qf", "qd", "bend"}
