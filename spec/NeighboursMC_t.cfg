CONSTANTS NB = 3
          NF = 8
          ND = 4
SPECIFICATION Spec
INVARIANTS FlowIsCounted FlowLaws StackIsFound DistanceIsTheProduct
CHECK_DEADLOCK FALSE
