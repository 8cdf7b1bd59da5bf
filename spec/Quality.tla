------------------------------ MODULE Quality ------------------------------
(***************************************************************************)
(* P16: how good a recovered program is.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

\* Millionths of log2(1..64)
Log2 == << 0, 1000000, 1584963, 2000000, 2321928, 2584963, 2807355, 3000000, 3169925, 3321928, 3459432, 3584963, 3700440, 3807355, 3906891, 4000000, 4087463, 4169925, 4247928, 4321928, 4392317, 4459432, 4523562, 4584963, 4643856, 4700440, 4754888, 4807355, 4857981, 4906891, 4954196, 5000000, 5044394, 5087463, 5129283, 5169925, 5209453, 5247928, 5285402, 5321928, 5357552, 5392317, 5426265, 5459432, 5491853, 5523562, 5554589, 5584963, 5614710, 5643856, 5672425, 5700440, 5727920, 5754888, 5781360, 5807355, 5832890, 5857981, 5882643, 5906891, 5930737, 5954196, 5977280, 6000000 >>

RECURSIVE ProductMod(_, _)
ProductMod(ns, m) == IF ns = <<>> THEN 1 % m ELSE ((ns[1] % m) * ProductMod(Tail(ns), m)) % m
SomeEmpty(ns) == \E i \in DOMAIN ns : ns[i] = 0
\* Bits needed to tell one solution from the others
SizeOf(ns) == IF SomeEmpty(ns) THEN 0 ELSE FoldSet(LAMBDA i, s : s + Log2[ns[i]], 0, DOMAIN ns)
BinsOf(ns) == {<<k, Cardinality({i \in DOMAIN ns : ns[i] = k})>> : k \in {ns[i] : i \in DOMAIN ns}}

\* Words compared as unsigned numbers
Below(a, b) == IF a < 0 THEN (b < 0 /\ a < b) ELSE (b < 0 \/ a < b)

\* Candidates come in order of decreasing score and, for the same score, of increasing encoding.
\* A candidate: [s |-> score, e |-> encoding]
Before(a, b) == a.s > b.s \/ (a.s = b.s /\ Below(a.e, b.e))
RankOf(cands, i) == 1 + Cardinality({j \in DOMAIN cands : Before(cands[j], cands[i])})
\* Place of the original; one past the end if it is not among them
Depth(cands, word) ==
    LET same == {i \in DOMAIN cands : cands[i].e = word} IN
    IF same = {} THEN Len(cands) + 1 ELSE Min({RankOf(cands, i) : i \in same})
=============================================================================
