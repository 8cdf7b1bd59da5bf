SPECIFICATION Spec
CONSTANTS MAXN = 4
          MAXC = 11
INVARIANTS PacketsAsDealt Lossless Localised
PROPERTY Terminates
CHECK_DEADLOCK FALSE
