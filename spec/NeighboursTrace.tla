-------------------------- MODULE NeighboursTrace --------------------------
EXTENDS VFTrace, Neighbours
VARIABLES c
X == Cases[c]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, r) == Abs(x * r[2] - r[1]) <= r[2]      \* x millionths and the ratio r of millionths
Rec(x) == [undef |-> x.undef, cond |-> x.cond, flags |-> x.flags, branch |-> x.branch, push |-> x.push, pop |-> x.pop,
           written |-> ToSet(x.written), readregs |-> ToSet(x.readregs), swritten |-> ToSet(x.swritten), sread |-> ToSet(x.sread),
           pcfg |-> x.pcfg, pupo |-> x.pupo, prd |-> x.prd]
P == [a \in DOMAIN X.program |-> [i \in DOMAIN X.program[a] |-> Rec(X.program[a][i])]]
\* [address |-> place]
Place(ad) == IF \E a \in DOMAIN X.addrs : X.addrs[a] = ad THEN CHOOSE a \in DOMAIN X.addrs : X.addrs[a] = ad ELSE 0
\* The candidates of an address, if it is in the program
Cands(p, ad) == IF Place(ad) = 0 THEN <<>> ELSE p[Place(ad)]
Fns == {<<X.fns[i][1], X.fns[i][2]>> : i \in DOMAIN X.fns}
FnOf(a) == LET starts == {b \in 1..a : \E f \in Fns : f[1] = X.addrs[b]} IN IF starts = {} THEN X.addrs[1] ELSE X.addrs[Max(starts)]
\* As far as the original has it (next to each other if it does not)
Dist(s) == IF \E i \in DOMAIN X.dist : X.dist[i][1] = s
           THEN LET d == X.dist[CHOOSE i \in DOMAIN X.dist : X.dist[i][1] = s] IN <<d[2], d[3]>> ELSE <<0, 0>>
Around(p, s, ad) == LET d == Dist(s) IN IF d[2] < d[1] THEN <<>> ELSE [k \in 1..(d[2] - d[1] + 1) |-> Cands(p, ad - 4 * (d[1] + k))]

Stack(p, x, a) ==
    LET ad == X.addrs[a]
        total == Len(p[a]) IN
    IF x.push
    THEN IF \E f \in Fns : f[1] = ad
         THEN LET last == (CHOOSE f \in Fns : f[1] = ad)[2] IN
              PushWeight(x, total, Cands(p, last), [k \in 1..Max2(0, (last - ad) \div 4) |-> Cands(p, ad + 4 * k)])
         ELSE <<1000000, total>>
    ELSE PopWeight(x, total, Cands(p, FnOf(a)))
Judge ==
    /\ Req(X, "Completes", ~X.raised)
    /\ X.raised \/
       LET p == P IN
       \A a \in DOMAIN p : \A i \in Defined(p[a]) :
        LET x == p[a][i]
            ad == X.addrs[a]
            free == x.branch \/ x.push \/ x.pop IN
        /\ Req(X, "FlowFactor", IF a = 1 THEN x.pcfg = -1 ELSE Near(x.pcfg, Flow(x, Cands(p, ad - 4), Cands(p, ad + 4))))
        /\ Req(X, "StackFactor", IF x.push \/ x.pop THEN Near(x.pupo, Stack(p, x, a)) ELSE x.pupo = -1)
        /\ Req(X, "DistanceFactor",
               IF a = 1 \/ free THEN x.prd = -1
               ELSE IF x.sread = {} THEN Abs(x.prd - LOW) <= 1
               ELSE \E s \in x.sread : Abs(x.prd - Written(s, Around(p, s, ad))) <= 20)

Step == /\ c <= Len(Cases) /\ c' = c + 1 /\ Judge
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
