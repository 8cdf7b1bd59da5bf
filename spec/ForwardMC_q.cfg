SPECIFICATION Spec
CONSTANTS NADDR = 2
          MAXCAND = 3
          NINST = 4
INVARIANTS OriginalKept NeverEmptied NothingInvented FewestFirst CountsNeverNegative WidthsSuffice
CHECK_DEADLOCK FALSE
