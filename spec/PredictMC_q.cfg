SPECIFICATION Spec
CONSTANTS MAXN = 3
          MAXBITS = 5
          WIDTHS = {1, 2}
INVARIANTS FoundAreLost NothingElse AsTheReceiver AllCandidates
CHECK_DEADLOCK FALSE
