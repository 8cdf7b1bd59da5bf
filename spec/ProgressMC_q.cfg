CONSTANTS MAXT = 25
          DISTS = {1, 2, 4, 10, 30}
SPECIFICATION Spec
INVARIANTS EndsOnce EndsInTime QuietAfterTheEnd FarApart Increasing FirstIsShown
CHECK_DEADLOCK FALSE
