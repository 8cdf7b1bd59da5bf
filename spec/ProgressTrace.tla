--------------------------- MODULE ProgressTrace ---------------------------
EXTENDS VFTrace, Progress
VARIABLES c
X == Cases[c]
Abs(v) == IF v < 0 THEN -v ELSE v
\* X.calls[k]: the lines that the call number k wrote, [pct (times X.scale), filled, length, labels (those given), newline]
L(k) == X.calls[k]
LastOf(k) == Len(L(k))
IsEnd(l) == l.newline
\* The lines that are not the end
Partial(k) == IF L(k) # <<>> /\ IsEnd(L(k)[LastOf(k)]) THEN SubSeq(L(k), 1, LastOf(k) - 1) ELSE L(k)
Ended(k) == L(k) # <<>> /\ IsEnd(L(k)[LastOf(k)])
\* iterations before the call k
N(k) == X.first + k - 1
ShownBefore(k) == {j \in 1..(k - 1) : Partial(j) # <<>>}
Last(k) == IF ShownBefore(k) = {} THEN -1 ELSE N(CHOOSE j \in ShownBefore(k) : \A i \in ShownBefore(k) : i <= j)
EndedBefore(k) == \E j \in 1..(k - 1) : Ended(j)
\* floating point numbers may take a percentage for a bit less
Undecided(k) == Last(k) # -1 /\ 100 * (N(k) - Last(k)) = X.dist * X.total
JudgeCall(k) ==
    LET due == (Last(k) = -1) \/ 100 * (N(k) - Last(k)) >= X.dist * X.total IN
    IF EndedBefore(k) THEN Req(X, "QuietAfterTheEnd", L(k) = <<>>)
    ELSE IF N(k) + X.dist >= X.total
    THEN Req(X, "EndsInTime", Ended(k) /\ Partial(k) = <<>>)
    ELSE /\ Req(X, "OneAtATime", Len(Partial(k)) <= 1)
         /\ Req(X, "ShownWhenDue", (due /\ ~Undecided(k)) => Partial(k) # <<>>)
         /\ Req(X, "NotShownBeforeItIsDue", ~due => L(k) = <<>>)
         /\ Req(X, "EndsWhenNothingElseIsLeft", Partial(k) # <<>> => (Ended(k) = (N(k) + 1 + X.dist >= X.total)))
         /\ Partial(k) # <<>> =>
              LET l == Partial(k)[1] IN
              /\ Req(X, "PercentageOfTheIterations", Abs(l.pct * X.total - 100 * X.scale * N(k)) * 2 <= X.total + 2)
              /\ Req(X, "BarOfThePercentage", \E n \in {N(k), N(k) + 1} : Abs(l.filled * X.total - X.length * n) * 2 <= X.total)
Judge ==
    /\ Req(X, "Completes", ~X.raised)
    /\ \A k \in DOMAIN X.calls :
         /\ JudgeCall(k)
         /\ \A i \in DOMAIN L(k) :
              /\ Req(X, "LabelsAndLength", L(k)[i].labels /\ L(k)[i].length = X.length)
              /\ Req(X, "TheEndIsWhole", IsEnd(L(k)[i]) => (i = LastOf(k) /\ L(k)[i].pct = 100 * X.scale /\ L(k)[i].filled = X.length))
    /\ Req(X, "Ends", Len(X.calls) + X.first >= X.total => \E k \in DOMAIN X.calls : Ended(k))
Step == /\ c <= Len(Cases) /\ c' = c + 1 /\ Judge
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
