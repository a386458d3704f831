SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 1 Show = TRUE
Sets = {"trans"}
Kinds = {"drift", "qf", "qd", "skew", "rot", "sext", "ssext", "oct", "cor", "thin", "qs", "bend", "bendp", "bendf", "bendo", "cf", "cd", "tilt", "vert", "off", "bsk", "sol", "marker"}
CONSTANT Charges <- Both
CONSTANT Dirs <- SomeDirs
