CONSTANTS M = 4 N = 4
SPECIFICATION Spec
INVARIANTS IsUnion IsProbability
CHECK_DEADLOCK FALSE
