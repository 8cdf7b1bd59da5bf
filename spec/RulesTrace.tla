----------------------------- MODULE RulesTrace -----------------------------
EXTENDS VFTrace, Rules
VARIABLES c
X == Cases[c]
Abs(v) == IF v < 0 THEN -v ELSE v
\* X.steps: what was done, one after the other.  After each one: the candidates [a][i] with what they are and their scores,
\* as a sequence of <<key, which value (the same number for the same value), millionths>>
S(k) == X.steps[k]
Before(k) == IF k = 1 THEN X.start ELSE S(k - 1).scores
Keys(sc) == {sc[j][1] : j \in DOMAIN sc}
Of(sc, key) == LET m == {j \in DOMAIN sc : sc[j][1] = key} IN IF m = {} THEN -1 ELSE sc[CHOOSE j \in m : TRUE][2]
Millionths(sc, key) == sc[CHOOSE j \in DOMAIN sc : sc[j][1] = key][3]
\* What changed in a step: <<address, candidate, key>>
Changed(k) == {<<a, i, key>> \in UNION {{<<a, i, key>> : i \in DOMAIN X.start[a], key \in 1..X.keys} : a \in DOMAIN X.start} :
                  Of(S(k).scores[a][i], key) # Of(Before(k)[a][i], key)}
KeysChanged(k) == {x[3] : x \in Changed(k)}
Scoring == {k \in DOMAIN X.steps : S(k).do \in {"flow", "condition", "operation", "registers"}}
Who(k) == <<S(k).do, S(k).pass>>
\* The keys under which a rule has its scores of a pass
Own(k) == UNION {KeysChanged(j) : j \in {j \in Scoring : j <= k /\ Who(j) = Who(k)}}

\* The candidates as they were when the step was done
At(k, a) == IF \E b \in DOMAIN X.addrs : X.addrs[b] = a THEN S(k).cands[CHOOSE b \in DOMAIN X.addrs : X.addrs[b] = a] ELSE <<>>
Flow(k) == \A i \in DOMAIN S(k).cands[S(k).a] :
    LET ad == X.addrs[S(k).a]
        r == FlowScore(S(k).cands[S(k).a][i], At(k, ad - 4), At(k, ad + 4), ToSet(X.addrs)) IN
    \A key \in Own(k) : Abs(Millionths(S(k).scores[S(k).a][i], key) * r[2] - r[1]) <= r[2]
JudgeStep(k) ==
    IF S(k).do = "discard" THEN Req(X, "DiscardingScoresNothing", Changed(k) = {})
    ELSE IF S(k).do = "forget" THEN \A x \in Changed(k) : x[1] = S(k).a /\ x[2] = S(k).which
    ELSE
    /\ Req(X, "Completes", ~S(k).raised)
    /\ S(k).raised \/
       /\ Req(X, "OnlyThereAndOnlyItsOwn", (\A x \in Changed(k) : x[1] = S(k).a) /\ Cardinality(Own(k)) <= 1)
       /\ Req(X, "OtherRulesAndPassesKeepTheirs", \A j \in Scoring : (j < k /\ Who(j) # Who(k)) => Own(k) \cap Own(j) = {})
       /\ Req(X, "UpdatedIfSomethingChanged", S(k).updated = (Changed(k) # {}))
       /\ S(k).do = "flow" =>
            /\ Req(X, "EveryCandidateIsScored", Cardinality(Own(k)) = 1 /\ \A i \in DOMAIN S(k).cands[S(k).a] : Own(k) \subseteq Keys(S(k).scores[S(k).a][i]))
            /\ (\A i \in DOMAIN S(k).cands[S(k).a] : Own(k) \subseteq Keys(S(k).scores[S(k).a][i])) =>
                  Req(X, "ScoredByTheFlow", Flow(k))
    /\ Req(X, "ScoreIsTheSum", \A a \in DOMAIN X.addrs : \A i \in DOMAIN S(k).cands[a] :
            LET sc == S(k).scores[a][i]
                RECURSIVE Sum(_)
                Sum(j) == IF j = 0 THEN 0 ELSE sc[j][3] + Sum(j - 1) IN
            Abs(S(k).totals[a][i] - Sum(Len(sc))) <= 1 + Len(sc))
Step == /\ c <= Len(Cases) /\ c' = c + 1 /\ \A k \in DOMAIN X.steps : JudgeStep(k)
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
