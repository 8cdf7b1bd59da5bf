CONSTANTS ADDRS = 3 CANDS = 2 KEYSA = {1} KEYSB = {2}
SPECIFICATION Spec
INVARIANTS OnlySolutions AllSolutions ChoicesAreOneByOne
CHECK_DEADLOCK FALSE
