------------------------------ MODULE CspTrace ------------------------------
EXTENDS VFTrace, Csp
VARIABLES c
X == Cases[c]

Cand(x) == [ignore |-> x.ignore,
            keys |-> {<<1, k>> : k \in ToSet(x.cond)} \cup {<<2, k>> : k \in ToSet(x.op)} \cup {<<3, k>> : k \in ToSet(x.stor)}]
Program == TLCEval([a \in DOMAIN X.program |-> [i \in DOMAIN X.program[a] |-> Cand(X.program[a][i])]])
P == X.program
\* X.stats: <<which, key, how many>>
StatKeys == {<<X.stats[i][1], X.stats[i][2]>> : i \in DOMAIN X.stats}
Stats == TLCEval([k \in StatKeys |-> X.stats[CHOOSE i \in DOMAIN X.stats : <<X.stats[i][1], X.stats[i][2]>> = k][3]])
\* A solution is recorded as the index picked at each address, 0 where there is nothing to pick
Padded(f) == [a \in DOMAIN P |-> IF a \in DOMAIN f THEN f[a] ELSE 0]

Judge ==
    LET all == {Padded(f) : f \in Solutions(Program, Stats)}
        got == ToSet(X.solutions)
    IN
    /\ Req(X, "OnceEach", NoDups(X.solutions))
    /\ Req(X, "OnlyProgramsThatMatch", got \subseteq all)
    /\ Req(X, "AllProgramsThatMatch", all \subseteq got)
    /\ X.hasOriginal => Req(X, "OriginalIsASolution", ToSet(X.original) \cap got # {})
    /\ Req(X, "ProgramUntouched", X.same)
Step == c <= Len(Cases) /\ Judge /\ c' = c + 1
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
