CONSTANTS M = 4 N = 5
SPECIFICATION Spec
INVARIANTS IsUnion IsProbability
CHECK_DEADLOCK FALSE
