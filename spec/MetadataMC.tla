----------------------------- MODULE MetadataMC -----------------------------
(***************************************************************************)
(* The collector, one instruction at a time: it remembers only whether a   *)
(* storage holds a value not read yet and how far away it was written.     *)
(* What it ends up with is what Metadata says of the whole program.        *)
(***************************************************************************)
EXTENDS Metadata
CONSTANTS S, N
VARIABLES prog, defd, dist, mn, mx, sum, times
vars == <<prog, defd, dist, mn, mx, sum, times>>

Alphabet == {[undef |-> FALSE, read |-> r, written |-> w] : r \in SUBSET S, w \in SUBSET S}

Init == /\ prog = <<>>
        /\ defd = [s \in S |-> FALSE] /\ dist = [s \in S |-> 0]
        /\ mn = [s \in S |-> -1] /\ mx = [s \in S |-> -1]
        /\ sum = [s \in S |-> 0] /\ times = [s \in S |-> 0]

ReadBack(x, s) == defd[s] /\ s \in x.read
Collect(x) ==
    /\ Len(prog) < N
    /\ prog' = Append(prog, x)
    /\ mn' = [s \in S |-> IF ReadBack(x, s) /\ (mn[s] = -1 \/ dist[s] < mn[s]) THEN dist[s] ELSE mn[s]]
    /\ mx' = [s \in S |-> IF ReadBack(x, s) /\ dist[s] > mx[s] THEN dist[s] ELSE mx[s]]
    /\ sum' = [s \in S |-> IF ReadBack(x, s) THEN sum[s] + dist[s] ELSE sum[s]]
    /\ times' = [s \in S |-> IF ReadBack(x, s) THEN times[s] + 1 ELSE times[s]]
    /\ defd' = [s \in S |-> s \in x.written \/ (defd[s] /\ s \notin x.read)]
    /\ dist' = [s \in S |-> IF s \in x.written \/ s \in x.read \/ ~defd[s] THEN 0 ELSE dist[s] + 1]
\* What is not an instruction is skipped
Skip == /\ Len(prog) < N
        /\ prog' = Append(prog, [undef |-> TRUE, read |-> {}, written |-> {}])
        /\ UNCHANGED <<defd, dist, mn, mx, sum, times>>
CollectAny == \E x \in Alphabet : Collect(x)
Next == CollectAny \/ Skip
Spec == Init /\ [][Next]_vars

Collected ==
    LET def == Defined(prog) IN
    \A s \in S :
        LET D == Distances(def, s) IN
        /\ times[s] = Cardinality(Pairs(def, s))
        /\ sum[s] = SumDist(def, s)
        /\ IF D = {} THEN mn[s] = -1 /\ mx[s] = -1 ELSE mn[s] = Min(D) /\ mx[s] = Max(D)
\* Each read takes at most one write, and the mean lies between the extremes
MeanBetween == \A s \in S : times[s] > 0 => mn[s] * times[s] <= sum[s] /\ sum[s] <= mx[s] * times[s]
NearerThanTheProgram == \A s \in S : mx[s] <= Len(prog) - 2 \/ mx[s] = -1
=============================================================================
