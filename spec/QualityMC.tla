----------------------------- MODULE QualityMC -----------------------------
(***************************************************************************)
(* Counting solutions address by address.  What is counted is compared     *)
(* with the number of ways of choosing a candidate for each address.       *)
(***************************************************************************)
EXTENDS Quality, TLC
CONSTANTS MAXADDR, MAXCAND
VARIABLES ns, at, count, bins
vars == <<ns, at, count, bins>>
Init == /\ ns \in UNION {[1..n -> 0..MAXCAND] : n \in 0..MAXADDR} /\ at = 1 /\ count = 1
        /\ bins = [k \in 0..MAXCAND |-> 0]
Count == /\ at \in DOMAIN ns /\ count' = count * ns[at] /\ bins' = [bins EXCEPT ![ns[at]] = @ + 1] /\ at' = at + 1
         /\ UNCHANGED ns
Next == Count
Spec == Init /\ [][Next]_vars
Ways == {f \in [DOMAIN ns -> 1..MAXCAND] : \A i \in DOMAIN ns : f[i] <= ns[i]}
CountsTheWays == at = Len(ns) + 1 => /\ count = Cardinality(Ways)
                                     /\ count % 7 = ProductMod(ns, 7)
                                     /\ BinsOf(ns) = {<<k, bins[k]>> : k \in {k \in 0..MAXCAND : bins[k] > 0}}
\* The size is the logarithm: 2^floor(size) <= count <= 2^ceil(size)
SizeIsTheLogarithm == (at = Len(ns) + 1 /\ count > 0) =>
    LET s == SizeOf(ns) IN (s > 5 => 2^((s - 5) \div 1000000) <= count) /\ count <= 2^((s + 999999 + 5) \div 1000000)
=============================================================================
