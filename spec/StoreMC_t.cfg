CONSTANT MAX = 90
SPECIFICATION Spec
INVARIANTS Fits Fair LossIsTheOneDealt AFifth
CHECK_DEADLOCK FALSE
