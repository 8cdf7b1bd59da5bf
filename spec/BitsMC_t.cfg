CONSTANTS W = 6
SPECIFICATION Spec
INVARIANTS Same
CHECK_DEADLOCK FALSE
