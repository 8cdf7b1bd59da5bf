-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* P19: the flow of control of a program and of its control flow graph.    *)
(* A program is a sequence of instructions with a condition (ALWAYS is     *)
(* 14), whether they branch, whether they do so with link, and where to    *)
(* (0: unknown or out of the program).                                     *)
(* Consecutive instructions of the same condition are a run, which a       *)
(* branch ends: a run is executed or skipped as a whole when arriving to   *)
(* its beginning.  Arriving to its middle is arriving to an executed one.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ALWAYS == 14
END == 0

Middle(p, j) == j > 1 /\ p[j - 1].cond = p[j].cond /\ ~p[j - 1].branch
RECURSIVE EndOfRun(_, _)
EndOfRun(p, j) == IF j + 1 > Len(p) \/ ~Middle(p, j + 1) THEN j + 1 ELSE EndOfRun(p, j + 1)

\* Which may be the first instructions executed when control arrives to j
RECURSIVE Arrive(_, _)
Arrive(p, j) == IF j > Len(p) THEN {END}
                ELSE {j} \union (IF p[j].cond = ALWAYS \/ Middle(p, j) THEN {} ELSE Arrive(p, EndOfRun(p, j)))
First(p) == Arrive(p, 1)
After(p, i) ==
    IF ~p[i].branch THEN Arrive(p, i + 1)
    ELSE (IF p[i].to = 0 THEN {END} ELSE Arrive(p, p[i].to)) \union (IF p[i].link THEN Arrive(p, i + 1) ELSE {})

(* A graph has nodes (a function from names to [kind, insts]) and edges.   *)
(* Control goes through the nodes without instructions, but the end.       *)
Succ(g, n) == {m \in DOMAIN g.nodes : <<n, m>> \in g.edges}
Through(g, n) == g.nodes[n].kind \in {"cond", "unknown"}
RECURSIVE Spread(_, _, _)
Spread(g, ns, seen) ==
    LET new == ns \ seen IN
    IF new = {} THEN seen ELSE Spread(g, UNION {IF Through(g, n) THEN Succ(g, n) ELSE {} : n \in new}, seen \union new)
\* The instructions control may arrive to after a node
Reached(g, n) == {IF g.nodes[m].kind = "end" THEN END ELSE g.nodes[m].insts[1] :
                  m \in {m \in Spread(g, Succ(g, n), {}) : ~Through(g, m)}}

Blocks(g) == {n \in DOMAIN g.nodes : g.nodes[n].kind = "block"}
\* Every instruction in a block, blocks made of consecutive instructions of a condition that a branch ends
Partition(p, g) ==
    /\ \A i \in DOMAIN p : Cardinality({n \in Blocks(g) : \E k \in DOMAIN g.nodes[n].insts : g.nodes[n].insts[k] = i}) = 1
    /\ \A n \in Blocks(g) :
        LET b == g.nodes[n].insts IN
        /\ b # <<>>
        /\ \A k \in DOMAIN b : b[k] \in DOMAIN p
        /\ \A k \in 1..(Len(b) - 1) : b[k + 1] = b[k] + 1 /\ Middle(p, b[k + 1])
    /\ \A n \in DOMAIN g.nodes \ Blocks(g) : g.nodes[n].insts = <<>>
\* The graph has no more nor less flow than the program. Only the last instruction may go to the end of more, which
\* keeps the end in the graph.
SameFlow(p, g, from, n) ==
    LET r == Reached(g, n) want == IF from = 0 THEN First(p) ELSE After(p, from)
    IN IF from = Len(p) THEN r \ {END} = want \ {END} /\ (END \in want => END \in r) ELSE r = want
Flows(p, g) ==
    /\ \A n \in Blocks(g) : SameFlow(p, g, g.nodes[n].insts[Len(g.nodes[n].insts)], n)
    /\ \A n \in DOMAIN g.nodes : g.nodes[n].kind = "root" => SameFlow(p, g, 0, n)
    /\ Cardinality({n \in DOMAIN g.nodes : g.nodes[n].kind = "root"}) = 1
    /\ Cardinality({n \in DOMAIN g.nodes : g.nodes[n].kind = "end"}) = 1
    /\ \A n \in DOMAIN g.nodes : g.nodes[n].kind = "end" => Succ(g, n) = {}
=============================================================================
