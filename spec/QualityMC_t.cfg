SPECIFICATION Spec
CONSTANTS MAXADDR = 5
          MAXCAND = 5
INVARIANTS CountsTheWays SizeIsTheLogarithm
CHECK_DEADLOCK FALSE
