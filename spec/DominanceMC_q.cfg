CONSTANTS N = 3
SPECIFICATION Spec
INVARIANTS Reached Right Tree Semidominator
CHECK_DEADLOCK FALSE
