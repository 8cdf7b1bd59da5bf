CONSTANTS ADDRS = 2 OTHERS = 1 CONDS = {1, 2} OPS = {1, 2} STORS = {1} FREE = {FALSE, TRUE}
SPECIFICATION Spec
INVARIANTS OriginalStays RatiosAreProbabilities Ends StableHasNoUndefined
PROPERTIES OnlyRemoves
CHECK_DEADLOCK FALSE
