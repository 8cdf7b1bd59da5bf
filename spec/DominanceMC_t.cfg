CONSTANTS N = 4
SPECIFICATION Spec
INVARIANTS Reached Right Tree Semidominator
CHECK_DEADLOCK FALSE
