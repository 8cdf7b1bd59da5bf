CONSTANTS ADDRS = 1 CANDS = 4 SOUND = FALSE
SPECIFICATION Spec
INVARIANTS OriginalKept NothingAdded PassesAreFew StableIsAFixedPoint NothingLeftToDiscard FinalEndsWithTheOriginal FiguresAddUp OnlyStoredIfWhole
PROPERTIES Fewer Ends
CHECK_DEADLOCK FALSE
