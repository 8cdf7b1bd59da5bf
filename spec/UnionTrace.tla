----------------------------- MODULE UnionTrace -----------------------------
EXTENDS VFTrace, Union
VARIABLES c
X == Cases[c]
Abs(x) == IF x < 0 THEN -x ELSE x
\* X.result: of M^n-ths when X.exact, and rounded to that otherwise
Judge ==
    LET want == IF X.j = "union" THEN Some(X.ps, X.m) ELSE All(X.ps) IN
    /\ Req(X, IF X.j = "union" THEN "ProbabilityOfSome" ELSE "ProbabilityOfAll", Abs(X.result - want) <= (IF X.exact THEN 0 ELSE 1))
    /\ Req(X, "ListUntouched", X.same)
JudgeUniform == Req(X, "UniformIsOneOverTheWidth", Abs(X.result - 1000000) <= 1)
JudgeEmpty == Req(X, "NothingIsRefused", X.raised)
Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ CASE X.j = "uniform" -> JudgeUniform [] X.j = "empty" -> JudgeEmpty [] OTHER -> Judge
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
