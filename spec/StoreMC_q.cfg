CONSTANT MAX = 26
SPECIFICATION Spec
INVARIANTS Fits Fair LossIsTheOneDealt AFifth
CHECK_DEADLOCK FALSE
