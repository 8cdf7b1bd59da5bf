SPECIFICATION Spec
CONSTANTS MAXADDR = 2
          MAXCAND = 3
          ENC = {1, 2, 3}
INVARIANTS RoundTrip NeverRefusesAComplete RefusedOnlyIfNotStorable
CHECK_DEADLOCK FALSE
