------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* P31: rules that score the candidates of an address.                     *)
(*                                                                         *)
(* A candidate is [undef, cond, flags (whether it may change them),        *)
(* branch, to (where it goes, -1 if that is unknown)].  Scores are         *)
(* millionths.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
ALWAYS == 14
Defined(cs) == {i \in DOMAIN cs : ~cs[i].undef}
Count(cs, Has(_)) == Cardinality({i \in Defined(cs) : Has(cs[i])})

(* The rule of the flow: conditions go together, and what is conditional   *)
(* comes after a change of the flags.                                      *)
\* As a ratio: n, m defined candidates before and after, s and a of them with the same condition, f before may change the flags
Ratio(cond, n, s, f, m, a, known) ==
    LET k == IF n = 0 THEN 1 ELSE n
        l == IF m = 0 THEN 1 ELSE m
    IN <<700000 * s * l + 700000 * a * k - (IF cond = ALWAYS THEN 600000 * f * l ELSE 0) + (IF known THEN 1000 * k * l ELSE 0), k * l>>
\* before, after: the candidates next to it; addrs: the addresses of the program
FlowScore(x, before, after, addrs) ==
    IF x.undef THEN <<0, 1>>
    ELSE Ratio(x.cond, Cardinality(Defined(before)), Count(before, LAMBDA y : y.cond = x.cond), Count(before, LAMBDA y : y.flags),
               Cardinality(Defined(after)), Count(after, LAMBDA y : y.cond = x.cond), x.branch /\ x.to \in addrs)

(* What a rule leaves behind: the scores of its own, in this pass.         *)
\* scores: [candidate |-> score], a subset of candidates may have none
Put(scores, new) == [i \in DOMAIN scores \cup DOMAIN new |-> IF i \in DOMAIN new THEN new[i] ELSE scores[i]]
Updates(scores, new) == \E i \in DOMAIN new : i \notin DOMAIN scores \/ scores[i] # new[i]
=============================================================================
