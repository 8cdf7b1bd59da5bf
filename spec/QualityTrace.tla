---------------------------- MODULE QualityTrace ----------------------------
EXTENDS VFTrace, Quality
VARIABLES c
X == Cases[c]

\* R.addr[i]: the candidates of the i-th address; X.word[i]: the original there; X.def[i]: whether it is
\* an instruction at all
Ns(R) == [i \in DOMAIN R.addr |-> Len(R.addr[i])]
Depths(R) == {<<Depth(R.addr[i], X.word[i]), Len(R.addr[i])>> : i \in {i \in DOMAIN R.addr : X.def[i] /\ Len(R.addr[i]) > 0}}
Abs(x) == IF x < 0 THEN -x ELSE x

Judge(R) == LET ns == Ns(R)
               ds == Depths(R) IN
    /\ Req(X, "CountIsTheProduct", \A m \in DOMAIN X.mods : R.counts[m] = ProductMod(ns, X.mods[m]))
    /\ Req(X, "SizeIsTheLogarithmOfTheCount", Abs(R.size - SizeOf(ns)) <= Len(ns) + 2)
    /\ Req(X, "BinsCountTheAddresses", {<<R.bins[i][1], R.bins[i][2]>> : i \in DOMAIN R.bins} = BinsOf(ns)
                                       /\ NoDups(R.bins))
    /\ Req(X, "DepthIsTheWorstRank",
           IF ds = {} THEN R.depth = <<0, 1>>
           ELSE /\ \E d \in ds : R.depth[1] * d[2] = d[1] * R.depth[2]
                /\ \A d \in ds : R.depth[1] * d[2] >= d[1] * R.depth[2])
    /\ Req(X, "EvaluatingLosesNothing", R.kept)

Step == c <= Len(Cases) /\ (\A r \in DOMAIN X.rounds : Judge(X.rounds[r])) /\ c' = c + 1
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
