--------------------------- MODULE DominanceTrace ---------------------------
EXTENDS VFTrace, Dominance
VARIABLES c
X == Cases[c]
\* Several graphs in a case. Nodes are 1..n; 0 is nobody.
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Judge(x) ==
    LET edges == Pairs(x.edges)
        dom == Dominated(edges, x.root)
        right == [v \in 1..x.n |-> IF v \in DOMAIN dom THEN Idom(dom, v) ELSE NOBODY]
        tree == {<<right[v], v>> : v \in {v \in 1..x.n : right[v] # NOBODY}}
    IN /\ Req(X, "Completes", ~x.raised)
       /\ x.raised \/
           /\ Req(X, "ImmediateDominators", \A v \in 1..x.n : x.idom[v] = right[v])
           /\ Req(X, "Tree", Pairs(x.tree) = tree /\ x.treeNodes = x.n)
           /\ Req(X, "Children", /\ \A v \in 1..x.n : NoDups(x.children[v])
                                 /\ \A v \in 1..x.n : ToSet(x.children[v]) = {w \in 1..x.n : right[w] = v})
           /\ Req(X, "Frontiers", \A v \in 1..x.n : NoDups(x.frontier[v])
                                    /\ ToSet(x.frontier[v]) = IF v \in DOMAIN dom THEN Frontier(edges, dom, v) ELSE {})
           /\ Req(X, "GraphUntouched", Pairs(x.after) = edges)
           /\ Req(X, "FrontiersNeedDominators", x.refused)
Step == c <= Len(Cases) /\ c' = c + 1 /\ \A i \in DOMAIN X.graphs : Judge(X.graphs[i])
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
