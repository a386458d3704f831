SPECIFICATION Spec
CONSTANTS NEl = 2
 NPs = 2
 Modes = {1, 2, 4, 7}
 Thrs = {50, 101}
 Show = TRUE
CHECK_DEADLOCK FALSE
