SPECIFICATION Spec
CONSTANTS NEl = 2
 NPs = 3
 Modes = {1, 2, 3, 4, 5, 6, 7}
 Thrs = {50, 100, 101}
 Show = FALSE
CHECK_DEADLOCK FALSE
