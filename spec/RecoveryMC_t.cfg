CONSTANTS ADDRS = 3 OTHERS = 1 CONDS = {1, 2} OPS = {1, 2} STORS = {1} FREE = {FALSE}
SPECIFICATION Spec
INVARIANTS OriginalStays RatiosAreProbabilities Ends StableHasNoUndefined
PROPERTIES OnlyRemoves
CHECK_DEADLOCK FALSE
