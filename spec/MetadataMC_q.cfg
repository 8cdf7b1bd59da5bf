CONSTANTS S = {1}
 N = 6
SPECIFICATION Spec
INVARIANTS Collected MeanBetween NearerThanTheProgram
CHECK_DEADLOCK FALSE
