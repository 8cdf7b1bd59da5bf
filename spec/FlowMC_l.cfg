CONSTANTS MaxLen = 4
 Conds = {0, 14}
SPECIFICATION Spec
INVARIANTS Built Sound Complete
CHECK_DEADLOCK FALSE
