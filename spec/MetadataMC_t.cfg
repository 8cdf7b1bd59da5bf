CONSTANTS S = {1}
 N = 9
SPECIFICATION Spec
INVARIANTS Collected MeanBetween NearerThanTheProgram
CHECK_DEADLOCK FALSE
