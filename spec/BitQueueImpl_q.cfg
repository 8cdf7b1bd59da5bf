SPECIFICATION Spec
CONSTANTS WORDSIZE = 3
          MAXBITS = 5
CONSTRAINT Small
INVARIANTS EmptyAgrees PoppedAgrees
PROPERTY Refines
CHECK_DEADLOCK FALSE
