SPECIFICATION Spec
CONSTANTS NADDR = 3
          MAXCAND = 2
          NINST = 4
INVARIANTS OriginalKept NeverEmptied NothingInvented FewestFirst CountsNeverNegative WidthsSuffice
CHECK_DEADLOCK FALSE
