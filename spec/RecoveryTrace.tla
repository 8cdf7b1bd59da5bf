--------------------------- MODULE RecoveryTrace ---------------------------
EXTENDS VFTrace, Recovery
VARIABLES c
X == Cases[c]

Rec(x) == [undef |-> x.undef, cond |-> x.cond, op |-> x.op, stor |-> ToSet(x.stor), free |-> x.free, id |-> x.id]
Originals == TLCEval([a \in DOMAIN X.orig |-> Rec(X.orig[a])])
Program == TLCEval([a \in DOMAIN X.program |-> [i \in DOMAIN X.program[a] |-> Rec(X.program[a][i])]])
\* A pass is recorded by the ids of the candidates left at each address
Ids(prog) == [a \in DOMAIN prog |-> [i \in DOMAIN prog[a] |-> prog[a][i].id]]
Restrict(prog, left) == [a \in DOMAIN prog |-> SelectSeq(prog[a], LAMBDA x : \E i \in DOMAIN left[a] : left[a][i] = x.id)]
Before(P, k) == TLCEval(IF k = 1 THEN P ELSE Restrict(P, X.passes[k - 1].left))

(* P10 *)
JudgePasses ==
    LET O == Originals
        P == Program
    IN
    /\ Req(X, "Completes", ~X.raised)
    /\ \A k \in DOMAIN X.passes :
          LET before == Before(P, k)
              after == TLCEval(Ids(Pass(O, before)))
          IN
          /\ Req(X, "RemovesWhatTheStatisticsRuleOut",
                 \A a \in DOMAIN P : ToSet(X.passes[k].left[a]) \subseteq ToSet(after[a]))
          /\ Req(X, "RemovesNothingElse",
                 \A a \in DOMAIN P : ToSet(after[a]) \subseteq ToSet(X.passes[k].left[a]))
          /\ Req(X, "KeepsTheOrder", \A a \in DOMAIN P : X.passes[k].left[a] = after[a] \/ ToSet(X.passes[k].left[a]) # ToSet(after[a]))
          /\ Req(X, "SaysHowManyItRemoved",
                 \A a \in DOMAIN P : X.passes[k].removed[a] = Len(before[a]) - Len(X.passes[k].left[a]))
    /\ Req(X, "ComesToAnEnd", X.raised \/ X.stable)

(* P09: scores are recorded as 0, 1 (between 0 and 1), 2 (1) or 3 (neither) *)
JudgeSafety ==
    LET O == Originals
        P == Program
    IN
    /\ Req(X, "Completes", ~X.raised)
    /\ \A k \in DOMAIN X.passes :
          /\ Req(X, "OriginalStays", \A a \in DOMAIN P : ~O[a].undef => \E i \in DOMAIN X.passes[k].left[a] : X.passes[k].left[a][i] = O[a].id)
          /\ Req(X, "ScoresAreProbabilities", \A i \in DOMAIN X.passes[k].scores : X.passes[k].scores[i] \in 0..2)
          /\ Req(X, "FactorsAreProbabilities", \A i \in DOMAIN X.passes[k].factors : X.passes[k].factors[i] \in 0..2)
          /\ Req(X, "OnlyRemoves", \A a \in DOMAIN P : LET before == Before(P, k) IN ToSet(X.passes[k].left[a]) \subseteq {before[a][i].id : i \in DOMAIN before[a]}
                                                          /\ NoDups(X.passes[k].left[a]))
          /\ Req(X, "SameAddresses", X.passes[k].sameAddresses)
    /\ Req(X, "FinalScoresAreProbabilities", \A i \in DOMAIN X.final : X.final[i] \in 0..2)

Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ IF X.j = "passes" THEN JudgePasses ELSE JudgeSafety
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
