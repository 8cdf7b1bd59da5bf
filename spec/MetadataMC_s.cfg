CONSTANTS S = {1, 2}
 N = 4
SPECIFICATION Spec
INVARIANTS Collected MeanBetween NearerThanTheProgram
CHECK_DEADLOCK FALSE
