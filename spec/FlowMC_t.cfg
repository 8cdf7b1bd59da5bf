CONSTANTS MaxLen = 3
 Conds = {0, 1, 14}
SPECIFICATION Spec
INVARIANTS Built Sound Complete
CHECK_DEADLOCK FALSE
