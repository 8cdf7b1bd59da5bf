SPECIFICATION Spec
CONSTANTS WORDSIZE = 4
          MAXBITS = 7
CONSTRAINT Small
INVARIANTS EmptyAgrees PoppedAgrees
PROPERTY Refines
CHECK_DEADLOCK FALSE
