---------------------------- MODULE RankingTrace ----------------------------
EXTENDS VFTrace, Ranking
VARIABLES c
X == Cases[c]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, r) == Abs(x * r[2] - r[1] * 1000000) <= r[2]      \* x millionths and the ratio r

(* the scores out of the factors *)
F == [k \in {X.factors[i][1] : i \in DOMAIN X.factors} |-> X.factors[CHOOSE i \in DOMAIN X.factors : X.factors[i][1] = k][2]]
JudgeScore ==
    /\ Req(X, "FinalScoreIsTheProduct", X.final = Final(F, X.kind))
    \* what was discarded has none; nothing is said of one that is certain otherwise
    /\ Req(X, "ScoreWhileRemoving", IF X.discarded THEN X.removing = 0 \/ Certain(F) ELSE X.removing = Removing(F, X.kind))
JudgeInvalid == Req(X, "InvalidProbabilityRefused", X.raised)

(* the factors out of the program *)
Rec(x) == [undef |-> x.undef, cond |-> x.cond, op |-> x.op, stor |-> ToSet(x.stor), regs |-> ToSet(x.regs), free |-> x.free,
           pc |-> x.pc, po |-> x.po, pr |-> x.pr, branch |-> x.branch, known |-> x.known, to |-> x.to, pbd |-> x.pbd]
O == [a \in DOMAIN X.orig |-> Rec(X.orig[a])]
P == [a \in DOMAIN X.program |-> [i \in DOMAIN X.program[a] |-> Rec(X.program[a][i])]]
Fns == {<<X.fns[i][1], X.fns[i][2]>> : i \in DOMAIN X.fns}
\* The function of an address: the last one that begins in the program before it
FnOf(a) == LET starts == {b \in 1..a : \E f \in Fns : f[1] = X.addrs[b]} IN IF starts = {} THEN X.addrs[1] ELSE X.addrs[Max(starts)]
\* -1: there is no such factor
JudgeFactors ==
    /\ Req(X, "Completes", ~X.raised)
    /\ X.raised \/ \A a \in DOMAIN P : \A i \in {i \in DOMAIN P[a] : ~P[a][i].undef} :
        LET x == P[a][i] IN
        /\ Req(X, "ConditionFactor", Near(x.pc, CondRatio(O, P, x)))
        /\ Req(X, "OperationFactor", Near(x.po, OpRatio(O, P, x)))
        /\ Req(X, "RegisterFactor",
               IF x.free THEN x.pr = -1
               ELSE LET rs == StorRatios(O, P, x) IN
                    /\ \E r \in rs : Near(x.pr, r)
                    /\ \A r \in rs : x.pr * r[2] <= r[1] * 1000000 + r[2])
        /\ Req(X, "BranchFactor",
               IF ~x.branch THEN x.pbd = -1
               ELSE x.pbd = 1000 * ChanceOf[Destination(x.to, x.known, FnOf(a), Fns, X.addrs[1], X.addrs[Len(X.addrs)])])

(* the counting rules *)
Keys(x) == CASE X.rule = "condition" -> {x.cond} [] X.rule = "operation" -> {x.op} [] OTHER -> x.regs
OrigKeys(x) == CASE X.rule = "condition" -> {x.cond} [] X.rule = "operation" -> {x.op} [] OTHER -> x.stor
Score(x) == LET ks == Keys(x) IN
            IF ks = {} THEN 0
            ELSE FoldSet(LAMBDA k, s : s + Share(O, P, Keys, OrigKeys, k), 0, ks) \div Cardinality(ks)
JudgeCounting ==
    /\ Req(X, "Completes", ~X.raised)
    /\ X.raised \/ \A a \in DOMAIN P : \A i \in {i \in DOMAIN P[a] : ~P[a][i].undef} :
          Req(X, "MeanOfTheShares", Abs(X.scores[a][i] - Score(P[a][i]) - (IF X.rule = "registers" /\ P[a][i].branch THEN 1 ELSE 0)) <= 3)

Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ CASE X.j = "score" -> JudgeScore [] X.j = "invalid" -> JudgeInvalid
             [] X.j = "factors" -> JudgeFactors [] X.j = "counting" -> JudgeCounting
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
