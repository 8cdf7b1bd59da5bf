CONSTANTS ADDRS = 2 CANDS = 2 KEYSA = {1} KEYSB = {2, 3}
SPECIFICATION Spec
INVARIANTS OnlySolutions AllSolutions ChoicesAreOneByOne
CHECK_DEADLOCK FALSE
