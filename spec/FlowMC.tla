------------------------------- MODULE FlowMC -------------------------------
(***************************************************************************)
(* The construction of the control flow graph, instruction by instruction, *)
(* as the code does it, for all small programs; and a machine that         *)
(* executes the program, whose steps must be those of After.               *)
(***************************************************************************)
EXTENDS Flow, TLC
CONSTANTS MaxLen, Conds
VARIABLES p, i, g, cb, lastCond, lastNode, pending, done,
          at, last, mode       \* the machine
vars == <<p, i, g, cb, lastCond, lastNode, pending, done, at, last, mode>>

Kinds(n) == [cond : Conds, branch : {FALSE}, link : {FALSE}, to : {0}] \union
            [cond : Conds, branch : {TRUE}, link : BOOLEAN, to : 0..n]
Programs == UNION {[1..n -> Kinds(n)] : n \in 1..MaxLen}

\* Graphs: nodes are numbered as they are added
Node(kind, insts) == [kind |-> kind, insts |-> insts]
Add(h, kind, insts) == [h EXCEPT !.nodes = @ @@ ((Cardinality(DOMAIN h.nodes) + 1) :> Node(kind, insts))]
Newest(h) == Cardinality(DOMAIN h.nodes)
Edge(h, a, b) == [h EXCEPT !.edges = @ \union {<<a, b>>}]
Edges(h, as, b) == [h EXCEPT !.edges = @ \union {<<a, b>> : a \in as}]
ROOTNODE == 1
ENDNODE == 2
With(h, x) == {n \in DOMAIN h.nodes : \E k \in DOMAIN h.nodes[n].insts : h.nodes[n].insts[k] = x}
Goes(h, n) == LET b == h.nodes[n].insts IN b = <<>> \/ ~p[b[Len(b)]].branch \/ p[b[Len(b)]].link

\* A jump from node b to instruction t, which is already in the graph
Guards(h, n) == IF p[h.nodes[n].insts[1]].cond = ALWAYS THEN {} ELSE {m \in DOMAIN h.nodes : h.nodes[m].kind = "cond" /\ <<m, n>> \in h.edges}
Receive(h, b, t) ==
    LET n == CHOOSE n \in With(h, t) : TRUE
        ins == h.nodes[n].insts
        k == CHOOSE k \in DOMAIN ins : ins[k] = t
    IN IF k = 1 /\ Guards(h, n) # {} THEN Edge(h, b, CHOOSE m \in Guards(h, n) : TRUE)
       ELSE IF k = 1 THEN Edge(h, b, n)
       ELSE LET h1 == Add(h, "block", SubSeq(ins, 1, k - 1))
                up == Newest(h1)
                h2 == [h1 EXCEPT !.nodes[n].insts = SubSeq(ins, k, Len(ins)),
                                 !.edges = {IF e[2] = n THEN <<e[1], up>> ELSE e : e \in @} \union {<<up, n>>}]
            IN Edge(h2, IF b = n THEN n ELSE b, n)
Wait(t, b) == IF t \in DOMAIN pending THEN [pending EXCEPT ![t] = @ \union {b}] ELSE pending @@ (t :> {b})
Waiting(t) == IF t \in DOMAIN pending THEN pending[t] ELSE {}

\* What a branch in node b does to the graph
BranchFrom(h, b) ==
    LET x == p[i] IN
    IF x.to = 0 THEN LET h1 == Add(h, "unknown", <<>>) u == Newest(h1)
                     IN /\ g' = Edge(Edge(h1, b, u), u, ENDNODE)
                        /\ cb' = IF x.link THEN u ELSE b
                        /\ UNCHANGED pending
    ELSE /\ cb' = b
         /\ IF With(h, x.to) = {} THEN g' = h /\ pending' = Wait(x.to, b)
                                   ELSE g' = Receive(h, b, x.to) /\ UNCHANGED pending

Building == ~done /\ i <= Len(p) /\ mode = "build"
AddToBlock == /\ Building /\ p[i].cond = lastCond /\ ~p[i].branch /\ Waiting(i) = {}
          /\ g' = [g EXCEPT !.nodes[cb].insts = Append(@, i)]
          /\ i' = i + 1 /\ UNCHANGED <<cb, lastCond, lastNode, pending>>
JumpedTo == /\ Building /\ p[i].cond = lastCond /\ ~p[i].branch /\ Waiting(i) # {}
            /\ LET h == Add(g, "block", <<i>>) b == Newest(h)
               IN g' = Edge(Edges(h, Waiting(i), b), cb, b) /\ cb' = b
            /\ i' = i + 1 /\ UNCHANGED <<lastCond, lastNode, pending>>
BranchInRun == /\ Building /\ p[i].cond = lastCond /\ p[i].branch
               /\ LET h == Add(g, "block", <<i>>) b == Newest(h)
                  IN BranchFrom(Edge(Edges(h, Waiting(i), b), cb, b), b)
               /\ lastCond' = -1 /\ i' = i + 1 /\ UNCHANGED lastNode
\* A new run
Begin(h) == \* with its block, which is the newest but the conditional
    LET b == Newest(h)
        h1 == IF p[i].cond = ALWAYS THEN h ELSE Edge(Add(h, "cond", <<>>), b + 1, b)
        into == IF p[i].cond = ALWAYS THEN b ELSE b + 1
        h2 == IF Goes(g, cb) THEN Edge(h1, cb, into) ELSE h1
        h3 == IF lastNode # 0 THEN Edge(h2, lastNode, into) ELSE h2
    IN Edges(h3, Waiting(i), into)
NewRun == /\ Building /\ p[i].cond # lastCond
          /\ LET h == Begin(Add(g, "block", <<i>>)) b == Newest(g) + 1
             IN /\ lastNode' = IF p[i].cond = ALWAYS THEN 0 ELSE b + 1
                /\ IF p[i].branch THEN BranchFrom(h, b) /\ lastCond' = -1
                   ELSE g' = h /\ cb' = b /\ lastCond' = p[i].cond /\ UNCHANGED pending
          /\ i' = i + 1
Build == (AddToBlock \/ JumpedTo \/ BranchInRun \/ NewRun) /\ UNCHANGED <<p, done, at, last, mode>>
Close == /\ ~done /\ i > Len(p) /\ mode = "build" /\ done' = TRUE
         /\ g' = LET h == Edge(g, cb, ENDNODE) IN IF lastNode = 0 THEN h ELSE Edge(h, lastNode, ENDNODE)
         /\ UNCHANGED <<p, i, cb, lastCond, lastNode, pending, at, last, mode>>

\* The machine: control is about to be at "at", the last executed was "last"
Running == mode = "run" /\ at # END
MayRun == p[at].cond = ALWAYS \/ Middle(p, at)
Next1 == IF at + 1 > Len(p) THEN END ELSE at + 1
Execute == /\ Running /\ last' = at
           /\ at' \in IF ~p[at].branch THEN {Next1}
                      ELSE {p[at].to} \union (IF p[at].link THEN {Next1} ELSE {})
Skip == /\ Running /\ ~MayRun
        /\ at' = LET e == EndOfRun(p, at) IN IF e > Len(p) THEN END ELSE e
        /\ UNCHANGED last
Run == (Execute \/ Skip) /\ UNCHANGED <<p, i, g, cb, lastCond, lastNode, pending, done, mode>>

Init == /\ p \in Programs /\ mode \in {"build", "run"}
        /\ i = 1 /\ done = FALSE /\ cb = ROOTNODE /\ lastCond = -1 /\ lastNode = 0 /\ pending = <<>>
        /\ g = [nodes |-> (1 :> Node("root", <<>>)) @@ (2 :> Node("end", <<>>)), edges |-> {}]
        /\ at = 1 /\ last = 0
Next == Build \/ Close \/ Run
Spec == Init /\ [][Next]_vars

\* The graph built has the flow of the program
Built == done => Partition(p, g) /\ Flows(p, g)
\* All the machine does is in After, and it does all of it
Before == IF last = 0 THEN First(p) ELSE After(p, last)
Sound == mode = "run" => at \in Before \/ (at # END /\ ~MayRun /\ Arrive(p, at) \subseteq Before)
Complete == (mode = "run" /\ at # END) => Arrive(p, at) = {at} \union (IF MayRun THEN {} ELSE
                                            LET e == EndOfRun(p, at) IN IF e > Len(p) THEN {END} ELSE Arrive(p, e))
=============================================================================
