----------------------------- MODULE Dominance -----------------------------
(***************************************************************************)
(* P20: dominators and dominance frontiers, by their definitions.  A graph *)
(* is a set of edges among nodes; root is one of the nodes.                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

SuccOf(edges, n) == {e[2] : e \in {e \in edges : e[1] = n}}
PredOf(edges, n) == {e[1] : e \in {e \in edges : e[2] = n}}
RECURSIVE Grow(_, _, _, _)
Grow(edges, new, seen, without) ==
    IF new = {} THEN seen
    ELSE LET next == UNION {SuccOf(edges, n) : n \in new} \ (seen \union new \union {without})
         IN Grow(edges, next, seen \union new, without)
\* What can be reached from the root without going through a node
Reach(edges, root, without) == IF root = without THEN {} ELSE Grow(edges, {root}, {}, without)

NOBODY == 0
\* [d |-> the nodes it dominates], among those that can be reached
Dominated(edges, root) ==
    LET r == Reach(edges, root, NOBODY) IN [d \in r |-> r \ Reach(edges, root, d)]
\* The immediate dominator: the strict one that all of the other strict ones dominate
Idom(dom, v) ==
    LET strict == {d \in DOMAIN dom : v \in dom[d] /\ d # v}
    IN IF strict = {} THEN NOBODY ELSE CHOOSE d \in strict : \A e \in strict : d \in dom[e]
\* Where the dominance of v ends: not strictly dominated nodes, with a predecessor that is dominated
Frontier(edges, dom, v) ==
    {w \in DOMAIN dom : ~(w \in dom[v] /\ w # v) /\ PredOf(edges, w) \cap dom[v] # {}}
=============================================================================
