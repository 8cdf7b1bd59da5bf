CONSTANTS N = 4 W = 4
SPECIFICATION Spec
INVARIANTS Optimal
CHECK_DEADLOCK FALSE
