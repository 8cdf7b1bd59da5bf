CONSTANTS W = 5
SPECIFICATION Spec
INVARIANTS Same
CHECK_DEADLOCK FALSE
