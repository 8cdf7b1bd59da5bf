CONSTANTS NB = 2
          NF = 5
          ND = 3
SPECIFICATION Spec
INVARIANTS FlowIsCounted FlowLaws StackIsFound DistanceIsTheProduct
CHECK_DEADLOCK FALSE
