CONSTANTS N = 4
 Density = 5
SPECIFICATION Spec
INVARIANTS ReadsRight OneName
CHECK_DEADLOCK FALSE
