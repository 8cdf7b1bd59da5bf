---------------------------- MODULE NeighboursMC ----------------------------
(***************************************************************************)
(* The weighing as the code does it, counting over the candidates one at a *)
(* time, for all small neighbourhoods.                                     *)
(***************************************************************************)
EXTENDS Neighbours
CONSTANTS NB,      \* candidates of each neighbour
          NF,      \* instructions of the function after its first
          ND       \* addresses where a storage may be written
VARIABLES what, around, at, k, n, res

Cand == [undef : BOOLEAN, cond : {0, ALWAYS}, flags : BOOLEAN]
\* all that cannot be told apart by the specification has one form
Neighbour == {c \in Cand : c.undef => (c.cond = ALWAYS /\ ~c.flags)}
Lists(S, m) == UNION {[1..j -> S] : j \in 0..m}
X(cond) == [undef |-> FALSE, cond |-> cond, flags |-> FALSE]
\* a function: each of its instructions is one of these, or two of them
Kind == {{"pop"}, {"branch"}, {"pop", "branch"}, {}}
Inst(ks) == [undef |-> FALSE, pop |-> "pop" \in ks, branch |-> "branch" \in ks]
Writes == [undef : BOOLEAN, w : BOOLEAN]
Writer(x) == [undef |-> x.undef, swritten |-> IF x.w THEN {1} ELSE {}]

Init == \/ /\ what = "flow" /\ around \in [before : Lists(Neighbour, NB), after : Lists(Neighbour, NB), cond : {0, ALWAYS}]
           /\ at = "before" /\ k = 1 /\ n = [prev |-> 0, post |-> 0, same |-> 0, flag |-> 0, both |-> 0, after |-> 0] /\ res = <<>>
        \/ /\ what = "stack" /\ around \in UNION {[1..j -> Kind] : j \in 0..NF}
           /\ at = Len(around) /\ k = 0 /\ n = [cp |-> 0, cb |-> 0, tb |-> 0] /\ res = <<>>
        \/ /\ what = "distance" /\ around \in UNION {[1..j -> Lists({[undef |-> FALSE, w |-> TRUE], [undef |-> FALSE, w |-> FALSE], [undef |-> TRUE, w |-> FALSE]}, 2)] : j \in 0..ND}
           /\ at = 1 /\ k = 0 /\ n = [p |-> <<1, 1>>] /\ res = <<>>

Side == IF at = "before" THEN around.before ELSE around.after
One(b) == IF b THEN 1 ELSE 0
\* a candidate of a neighbour is counted
Look == /\ what = "flow" /\ at # "end" /\ k <= Len(Side) /\ k' = k + 1
        /\ LET y == Side[k] IN
           n' = IF y.undef THEN n
                ELSE IF at = "before"
                THEN [n EXCEPT !.prev = @ + 1, !.same = @ + One(y.cond = around.cond), !.flag = @ + One(y.flags),
                               !.both = @ + One(y.cond = around.cond /\ y.flags)]
                ELSE [n EXCEPT !.post = @ + 1, !.after = @ + One(y.cond = around.cond)]
        /\ UNCHANGED <<what, around, at, res>>
Next1 == /\ what = "flow" /\ at # "end" /\ k > Len(Side) /\ k' = 1
         /\ at' = IF at = "before" THEN "after" ELSE "end"
         /\ res' = IF at = "after" THEN FlowOf(around.cond, n.prev, n.post, n.same, n.flag, n.same + n.flag - n.both, n.after) ELSE res
         /\ UNCHANGED <<what, around, n>>
\* from the last instruction of the function to the one after its first, until a pop and a branch after it are found
Back == /\ what = "stack" /\ at > 0 /\ res = <<>>
        /\ LET m == [cp |-> n.cp + One("pop" \in around[at]), cb |-> n.cb + One("branch" \in around[at]), tb |-> n.tb + 1] IN
           /\ n' = m
           /\ res' = IF n.tb > 0 /\ m.cp > 0 /\ n.cb > 0 THEN <<TRUE>> ELSE IF at = 1 THEN <<FALSE>> ELSE <<>>
        /\ at' = at - 1 /\ UNCHANGED <<what, around, k>>
\* an address where the storage may have been written
Far == /\ what = "distance" /\ at <= Len(around) /\ n.p[1] > 0
       /\ LET t == Cardinality(Defined(around[at]))
              w == Cardinality({i \in DOMAIN around[at] : around[at][i].w}) IN
          n' = IF t = 0 THEN n ELSE [p |-> <<n.p[1] * (t - w), n.p[2] * t>>]
       /\ at' = at + 1 /\ UNCHANGED <<what, around, k, res>>
Next == Look \/ Next1 \/ Back \/ Far
Spec == Init /\ [][Next]_<<what, around, at, k, n, res>>

Ratio(r, s) == r[1] * s[2] = s[1] * r[2]
FlowIsCounted == (what = "flow" /\ at = "end") =>
    /\ Ratio(res, Flow(X(around.cond), around.before, around.after))
    /\ res[1] > 0 /\ res[1] <= 1000000 * res[2]
\* laws: with nothing around it is unlikely; one that changes the flags before is never worse for a conditional than nothing
FlowLaws == (what = "flow" /\ at = "end") =>
    /\ (n.prev = 0 /\ n.post = 0) => res = <<LOW, 1>>
    /\ (around.cond # ALWAYS /\ n.prev > 0 /\ n.flag = n.prev /\ n.same = 0) => res[1] >= 600000 * res[2]
    /\ (around.cond = ALWAYS /\ n.flag > 0) => res[1] <= 400000 * res[2]
StackIsFound == (what = "stack" /\ res # <<>>) =>
    res[1] = ((\E a \in DOMAIN around : "pop" \in around[a]) /\ (\E a \in DOMAIN around : a > 1 /\ "branch" \in around[a]))
Stuff == [a \in DOMAIN around |-> [i \in DOMAIN around[a] |-> Writer(around[a][i])]]
DistanceIsTheProduct == (what = "distance" /\ (at > Len(around) \/ n.p[1] = 0)) =>
    LET w == Written(1, Stuff)
        d == (1000000 * (n.p[2] - n.p[1])) \div n.p[2] IN
    IF n.p[1] = n.p[2] THEN w = LOW ELSE (w - d \in -4..4) /\ w > 0 /\ w <= 1000000
=============================================================================
