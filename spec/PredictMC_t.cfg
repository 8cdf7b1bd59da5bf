SPECIFICATION Spec
CONSTANTS MAXN = 4
          MAXBITS = 8
          WIDTHS = {1, 2, 4}
INVARIANTS FoundAreLost NothingElse AsTheReceiver AllCandidates
CHECK_DEADLOCK FALSE
