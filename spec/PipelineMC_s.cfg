CONSTANTS ADDRS = 2 CANDS = 2 SOUND = TRUE
SPECIFICATION SpecSound
INVARIANTS OriginalKept NothingAdded PassesAreFew StableIsAFixedPoint NothingLeftToDiscard FinalEndsWithTheOriginal FiguresAddUp OnlyStoredIfWhole
PROPERTIES Fewer Ends
CHECK_DEADLOCK FALSE
