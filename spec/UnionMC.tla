------------------------------ MODULE UnionMC ------------------------------
(***************************************************************************)
(* The union by inclusion and exclusion: all the groups of events, one     *)
(* after the other, each as the increasing sequence e of its members.      *)
(***************************************************************************)
EXTENDS Union
CONSTANTS M, N
VARIABLES ps, e, result, seen
vars == <<ps, e, result, seen>>

Init == /\ ps \in UNION {[1..n -> 0..M] : n \in 1..N}
        /\ e = <<1>> /\ result = 0 /\ seen = {}
\* of M^Len(ps)-ths
Term == Product([j \in DOMAIN e |-> ps[e[j]]]) * M^(Len(ps) - Len(e))
Sign == IF Len(e) % 2 = 1 THEN 1 ELSE -1
Front(s) == SubSeq(s, 1, Len(s) - 1)
Count == /\ seen' = seen \cup {{e[j] : j \in DOMAIN e}}
         /\ result' = result + Sign * Term
         /\ UNCHANGED ps
\* A larger group that begins as this one
Grow == /\ e # <<>> /\ e[Len(e)] < Len(ps)
        /\ Count /\ e' = Append(e, e[Len(e)] + 1)
\* There is none: the next one of those with one less
Shrink == /\ e # <<>> /\ e[Len(e)] = Len(ps)
          /\ Count
          /\ e' = IF Len(e) = 1 THEN <<>> ELSE [Front(e) EXCEPT ![Len(e) - 1] = @ + 1]
Next == Grow \/ Shrink
Spec == Init /\ [][Next]_vars

IsUnion == e = <<>> => /\ result = Some(ps, M)
                       /\ seen = (SUBSET (1..Len(ps))) \ {{}}
IsProbability == e = <<>> => result \in 0..(M^Len(ps))
=============================================================================
