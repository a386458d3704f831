SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 2 Show = TRUE
Sets = {"trans", "thin", "symp", "smp"}
Kinds = {"tw", "twd", "tw0", "twn", "sw", "trf"}
CONSTANT Charges <- Both
CONSTANT Dirs <- SomeDirs
