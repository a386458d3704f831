SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3 Show = FALSE
Sets = {"trans", "thin", "symp", "smp"}
Kinds = {"tw", "twd", "tw0", "twn", "sw", "trf", "drift", "marker"}
CONSTANT Charges <- Both
CONSTANT Dirs <- FewDirs
