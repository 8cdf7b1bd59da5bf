CONSTANTS N = 5 W = 5
SPECIFICATION Spec
INVARIANTS Optimal
CHECK_DEADLOCK FALSE
