SPECIFICATION Spec
CONSTANTS MAXN = 3
          MAXC = 5
INVARIANTS PacketsAsDealt Lossless Localised
PROPERTY Terminates
CHECK_DEADLOCK FALSE
