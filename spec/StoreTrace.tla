----------------------------- MODULE StoreTrace -----------------------------
EXTENDS VFTrace, Store
VARIABLES c
X == Cases[c]
\* X.words: the program, X.kept: the words of the file without losses, X.stored: those of the other.
\* Bits are counted from the highest of the first byte: within a word its bytes are the other way around
BitAt(w, b) == Bit(w, 8 * (b \div 8) + 7 - (b % 8))
JudgeStored ==
    /\ Req(X, "Completes", X.done)
    /\ X.done =>
       /\ Req(X, "WholeProgramKept", X.kept = X.words)
       /\ Req(X, "SameSize", Len(X.stored) = Len(X.words))
       /\ Len(X.stored) = Len(X.words) =>
          LET must == Cleared(Len(X.words))
              may == MayBeCleared(Len(X.words)) IN
          \A i \in DOMAIN X.words : LET w == X.words[i]
                                        v == X.stored[i] IN
             /\ Req(X, "LostBitsAreCleared", \A b \in 0..31 : (32 * (i - 1) + b) \in must => BitAt(v, b) = 0)
             /\ Req(X, "OtherBitsAreKept", \A b \in 0..31 : (32 * (i - 1) + b) \notin may => BitAt(v, b) = BitAt(w, b))
JudgeRefused == /\ Req(X, "Refused", ~X.done)
                /\ Req(X, "NothingIsWritten", ~X.written)
Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ IF X.j = "stored" THEN JudgeStored ELSE JudgeRefused
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
