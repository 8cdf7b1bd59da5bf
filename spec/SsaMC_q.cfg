CONSTANTS N = 3
 Density = 5
SPECIFICATION Spec
INVARIANTS ReadsRight OneName
CHECK_DEADLOCK FALSE
