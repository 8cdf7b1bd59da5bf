SPECIFICATION Spec
CONSTANTS MAXADDR = 2
          MAXCAND = 2
          ENC = {1, 2}
INVARIANTS RoundTrip NeverRefusesAComplete RefusedOnlyIfNotStorable
CHECK_DEADLOCK FALSE
