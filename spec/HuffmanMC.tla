----------------------------- MODULE HuffmanMC -----------------------------
(***************************************************************************)
(* Merging the two lightest trees until there is one, whichever they are   *)
(* when there are ties.  Checked against all the codes there can be.       *)
(***************************************************************************)
EXTENDS Huffman
CONSTANTS N, W
VARIABLES ws, trees, code
vars == <<ws, trees, code>>
\* trees: a set of [w, syms]

Init == /\ ws \in UNION {[1..n -> 0..W] : n \in 1..N}
        /\ \A i \in 1..(Len(ws) - 1) : ws[i] <= ws[i + 1]
        /\ trees = {[w |-> ws[i], syms |-> {i}] : i \in DOMAIN ws}
        /\ code = [i \in DOMAIN ws |-> <<>>]
LightestOf(ts) == {t \in ts : \A u \in ts : t.w <= u.w}
Merge == /\ Cardinality(trees) > 1
         /\ \E lo \in LightestOf(trees) : \E hi \in LightestOf(trees \ {lo}) :
               /\ trees' = (trees \ {lo, hi}) \cup {[w |-> lo.w + hi.w, syms |-> lo.syms \cup hi.syms]}
               /\ code' = [i \in DOMAIN ws |-> IF i \in lo.syms THEN <<0>> \o code[i]
                                               ELSE IF i \in hi.syms THEN <<1>> \o code[i] ELSE code[i]]
         /\ UNCHANGED ws
Next == Merge
Spec == Init /\ [][Next]_vars

Done == Cardinality(trees) = 1
\* All the lengths that codes may have
Kraft(ls) == FoldSet(LAMBDA i, s : s + 2^(N - ls[i]), 0, DOMAIN ls) <= 2^N
Lengths == {ls \in [DOMAIN ws -> 0..N] : Kraft(ls)}
CostOf(ls) == FoldSet(LAMBDA i, s : s + ws[i] * ls[i], 0, DOMAIN ls)
Optimal == Done => /\ PrefixFree(code) /\ Complete(code)
                   /\ Cost(code, ws) = Least(ws)
                   /\ \A ls \in Lengths : Cost(code, ws) <= CostOf(ls)
=============================================================================
