---------------------------- MODULE DominanceMC ----------------------------
(***************************************************************************)
(* Lengauer and Tarjan's algorithm as the code has it (nodes compared by   *)
(* their depth in the search tree, no compression), for all small graphs   *)
(* and all orders of the search; and the frontiers by going up from the    *)
(* predecessors.                                                           *)
(***************************************************************************)
EXTENDS Dominance, Sequences, FiniteSetsExt
CONSTANTS N
VARIABLES edges, phase, stack, vertex, parent, depth, k, semi, ancestor, bucket, idom, frontier
vars == <<edges, phase, stack, vertex, parent, depth, k, semi, ancestor, bucket, idom, frontier>>

Nodes == 1..N
Visited == {vertex[j] : j \in DOMAIN vertex}
Init == /\ edges \in SUBSET (Nodes \X Nodes)
        /\ phase = "search" /\ stack = <<1>> /\ vertex = <<1>>
        /\ parent = [n \in Nodes |-> NOBODY] /\ depth = [n \in Nodes |-> IF n = 1 THEN 0 ELSE -1]
        /\ k = 0 /\ semi = [n \in Nodes |-> n] /\ ancestor = [n \in Nodes |-> NOBODY]
        /\ bucket = [n \in Nodes |-> {}] /\ idom = [n \in Nodes |-> NOBODY] /\ frontier = [n \in Nodes |-> {}]
Top == stack[Len(stack)]
Down == /\ phase = "search" /\ stack # <<>>
        /\ \E s \in SuccOf(edges, Top) \ Visited :
             /\ stack' = Append(stack, s) /\ vertex' = Append(vertex, s)
             /\ parent' = [parent EXCEPT ![s] = Top] /\ depth' = [depth EXCEPT ![s] = Len(stack)]
        /\ UNCHANGED <<edges, phase, k, semi, ancestor, bucket, idom, frontier>>
Up == /\ phase = "search" /\ stack # <<>> /\ SuccOf(edges, Top) \ Visited = {}
      /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
      /\ IF Len(stack) = 1 THEN phase' = "semi" /\ k' = Len(vertex) ELSE UNCHANGED <<phase, k>>
      /\ UNCHANGED <<edges, vertex, parent, depth, semi, ancestor, bucket, idom, frontier>>

SemiDepth(s, n) == depth[s[n]]
\* The best of those up to the root of its tree in the forest, which is left out
RECURSIVE Climb(_, _, _, _)
Climb(s, anc, v, a) == IF anc[a] = NOBODY THEN v
                       ELSE Climb(s, anc, IF SemiDepth(s, v) > SemiDepth(s, a) THEN a ELSE v, anc[a])
Eval(s, anc, v) == IF anc[v] = NOBODY THEN v ELSE Climb(s, anc, v, anc[v])

Semi == /\ phase = "semi" /\ k > 1
        /\ LET w == vertex[k]
               p == parent[w]
               us == {Eval(semi, ancestor, v) : v \in PredOf(edges, w) \cap Visited}
               cand == {semi[u] : u \in us} \union {w}
               best == CHOOSE x \in cand : \A y \in cand : depth[x] <= depth[y]
               s1 == [semi EXCEPT ![w] = best]
               a1 == [ancestor EXCEPT ![w] = p]
               b1 == [bucket EXCEPT ![best] = @ \union {w}]
           IN /\ semi' = s1 /\ ancestor' = a1
              /\ bucket' = [b1 EXCEPT ![p] = {}]
              /\ idom' = [v \in Nodes |-> IF v \in b1[p]
                            THEN LET u == Eval(s1, a1, v) IN IF SemiDepth(s1, u) < SemiDepth(s1, v) THEN u ELSE p
                            ELSE idom[v]]
        /\ k' = k - 1
        /\ UNCHANGED <<edges, phase, stack, vertex, parent, depth, frontier>>
Turn == /\ phase = "semi" /\ k = 1 /\ phase' = "final" /\ k' = 2
        /\ UNCHANGED <<edges, stack, vertex, parent, depth, semi, ancestor, bucket, idom, frontier>>
Final == /\ phase = "final" /\ k <= Len(vertex)
         /\ LET w == vertex[k] IN idom' = IF idom[w] # semi[w] THEN [idom EXCEPT ![w] = idom[idom[w]]] ELSE idom
         /\ k' = k + 1
         /\ UNCHANGED <<edges, phase, stack, vertex, parent, depth, semi, ancestor, bucket, frontier>>

\* From each predecessor up to the immediate dominator
RECURSIVE Runners(_, _)
Runners(r, stop) == IF r = stop THEN {} ELSE {r} \union Runners(idom[r], stop)
Edge == /\ phase = "final" /\ k > Len(vertex) /\ phase' = "done"
        /\ frontier' = [n \in Nodes |-> {w \in Visited : \E p \in PredOf(edges, w) \cap Visited : n \in Runners(p, idom[w])}]
        /\ UNCHANGED <<edges, stack, vertex, parent, depth, k, semi, ancestor, bucket, idom>>
Next == Down \/ Up \/ Semi \/ Turn \/ Final \/ Edge
Spec == Init /\ [][Next]_vars

Reached == phase # "search" => Visited = Reach(edges, 1, NOBODY)
Right == phase = "done" =>
    LET dom == Dominated(edges, 1) IN
    /\ \A v \in DOMAIN dom : idom[v] = Idom(dom, v) /\ frontier[v] = Frontier(edges, dom, v)
    /\ \A v \in Nodes \ DOMAIN dom : idom[v] = NOBODY /\ frontier[v] = {}
\* Immediate dominators make a tree of all that is reached
Tree == phase = "done" => Reach({<<idom[v], v>> : v \in Visited \ {1}}, 1, NOBODY) = Visited
Semidominator == phase = "final" => \A j \in 2..Len(vertex) : depth[semi[vertex[j]]] < depth[vertex[j]]
=============================================================================
