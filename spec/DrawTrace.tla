----------------------------- MODULE DrawTrace -----------------------------
EXTENDS VFTrace, Draw
VARIABLES c
X == Cases[c]
Set(s) == {s[i] : i \in DOMAIN s}
(* X.lines: what a reader of the language finds, nodes [name, attrs] and edges [from, to, attrs]; an attribute is <<name, value>>, sorted. *)
(* X.nodes, X.edges: the graph, that is, the names, labels, weights and attributes it was given.                                          *)
NodeAttrs(n) == Set(n.attrs)
EdgeAttrs(e) ==
    LET l == LabelOf(e.label, e.weight, X.weighted) IN
    Set(e.attrs) \cup (IF l = "" THEN {} ELSE {<<"label", l>>}) \cup (IF X.weighted THEN {<<"weight", e.weight>>} ELSE {})
Pair(e) == EdgeOf(X.directed, e.from, e.to)
JudgeLines ==
    /\ Req(X, "ReadableAsAGraph", X.readable)
    /\ Req(X, "KindOfGraph", X.type = (IF X.directed THEN "digraph" ELSE "graph"))
    /\ Req(X, "NodesOfTheGraph", {n.name : n \in Set(X.dnodes)} = {n.name : n \in Set(X.nodes)})
    /\ Req(X, "EachNodeOnce", Len(X.dnodes) = Len(X.nodes))
    /\ Req(X, "NodesAsGiven", \A d \in Set(X.dnodes), n \in Set(X.nodes) : (d.name = n.name) => Set(d.attrs) = NodeAttrs(n))
    /\ Req(X, "EdgesOfTheGraph", {Pair(e) : e \in Set(X.dedges)} = {Pair(e) : e \in Set(X.edges)})
    /\ Req(X, "EachEdgeOnce", Len(X.dedges) = Cardinality({Pair(e) : e \in Set(X.edges)}))
    /\ Req(X, "EdgesAsGiven", \A d \in Set(X.dedges), e \in Set(X.edges) : (Pair(d) = Pair(e)) => Set(d.attrs) = EdgeAttrs(e))
\* Blocks: their numbers are theirs only, and so are their texts
JudgeBlocks ==
    LET bs == Set(X.blocks) IN
    /\ Req(X, "NumbersAreTheirs", Cardinality({b.idx : b \in bs}) = Len(X.blocks))
    /\ Req(X, "FoundByNumber", \A b \in bs : b.found)
    /\ Req(X, "TextOfTheBlock", \A b \in bs : b.text = (IF X.printed THEN "<<" \o ToString(b.idx) \o ">>" ELSE BlockText(b)))
    /\ Req(X, "TextsAreTheirs", Cardinality({b.text : b \in bs}) = Len(X.blocks))
    /\ Req(X, "OneRootOneEnd", Cardinality({b \in bs : b.kind = "root"}) = 1 /\ Cardinality({b \in bs : b.kind = "end"}) = 1)
Judge ==
    /\ Req(X, "Completes", ~X.raised)
    /\ ~X.raised => JudgeLines /\ (X.k = "flow" => JudgeBlocks)
Step == /\ c <= Len(Cases) /\ c' = c + 1 /\ Judge
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
