SPECIFICATION Spec
CONSTANTS MAXN = 4
          MAXC = 6
INVARIANTS PacketsAsDealt Lossless Localised
PROPERTY Terminates
CHECK_DEADLOCK FALSE
