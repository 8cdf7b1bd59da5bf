----------------------------- MODULE FlowTrace -----------------------------
EXTENDS VFTrace, Flow
A == INSTANCE Arm
VARIABLES c
X == Cases[c]

\* The program, as its words say; as the code says for those out of the specification of words
At(addr) == LET s == {j \in DOMAIN X.program : X.program[j].addr = addr} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : j <= k
Inst(x) ==
    IF A!Class(x.word) = "unknown"
    THEN [cond |-> x.cond, branch |-> x.branch, link |-> x.link, to |-> IF x.known THEN At(x.target) ELSE 0]
    ELSE [cond |-> A!Cond(x.word), branch |-> A!Jumps(x.word), link |-> A!Links(x.word),
          to |-> IF A!TargetKnown(x.word) THEN At(A!Target(x.word, x.addr)) ELSE 0]
P == [j \in DOMAIN X.program |-> Inst(X.program[j])]

Graph(h) == [nodes |-> h.nodes, edges |-> {<<h.edges[k][1], h.edges[k][2]>> : k \in DOMAIN h.edges}]
Judge ==
    LET p == P g == Graph(X.graph) IN
    /\ Req(X, "Completes", ~X.raised)
    /\ X.raised \/
        /\ Req(X, "Partition", Partition(p, g))
        /\ ~Partition(p, g) \/
            /\ Req(X, "Flow", Flows(p, g))
            /\ Req(X, "Untouched", X.same)
            /\ LET h == Graph(X.without) IN
                /\ Req(X, "WithoutConditionals", /\ \A n \in DOMAIN h.nodes : h.nodes[n].kind # "cond"
                                                 /\ Partition(p, h))
                /\ ~Partition(p, h) \/ Req(X, "SameFlowWithoutConditionals", Flows(p, h))

Step == c <= Len(Cases) /\ c' = c + 1 /\ Judge
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
