SPECIFICATION Spec
CONSTANTS NADDR = 2
          MAXCAND = 2
          NINST = 5
INVARIANTS OriginalKept NeverEmptied NothingInvented FewestFirst CountsNeverNegative WidthsSuffice
CHECK_DEADLOCK FALSE
