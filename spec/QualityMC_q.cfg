SPECIFICATION Spec
CONSTANTS MAXADDR = 4
          MAXCAND = 4
INVARIANTS CountsTheWays SizeIsTheLogarithm
CHECK_DEADLOCK FALSE
