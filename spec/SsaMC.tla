------------------------------- MODULE SsaMC -------------------------------
(***************************************************************************)
(* Placing phi functions in the iterated frontiers, naming along the       *)
(* dominator tree and removing the dead phi functions is right: a machine  *)
(* executes a program over a variable and its names in lockstep, and all   *)
(* reads see the same value.  All small graphs, all uses of the variable.  *)
(***************************************************************************)
EXTENDS Ssa, TLC
CONSTANTS N, Density
VARIABLES edges, op, phi, entry, exit, phase, at, value, store
vars == <<edges, op, phi, entry, exit, phase, at, value, store>>

Nodes == 1..N
Ops == {"none", "read", "write", "read write", "write read"}
ReadsFirst(n) == op[n] \in {"read", "read write"}
Writes(n) == op[n] \in {"write", "read write", "write read"}
KillsFirst(n) == op[n] \in {"write", "write read"}
\* The names: 0 at the beginning, n for the write in node n, N + n for its phi
Init == /\ edges \in {e \in SUBSET (Nodes \X (Nodes \ {1})) : Cardinality(e) <= Density}
        /\ Reach(edges, 1, NOBODY) = Nodes
        /\ op \in [Nodes -> Ops]
        /\ phi = {} /\ entry = <<>> /\ exit = <<>> /\ phase = "place" /\ at = 1 /\ value = 0 /\ store = [x \in 0..(2 * N) |-> -1]
Dom == Dominated(edges, 1)
Place == /\ phase = "place" /\ phase' = "name"
         /\ LET d == Dom IN phi' = IF \E n \in Nodes : ReadsFirst(n)
                                   THEN Iterated([n \in Nodes |-> Frontier(edges, d, n)], {n \in Nodes : Writes(n)}, {})
                                   ELSE {}
         /\ UNCHANGED <<edges, op, entry, exit, at, value, store>>
\* Down the dominator tree, one node at a time
Name == /\ phase = "name" /\ DOMAIN entry # Nodes
        /\ \E n \in Nodes \ DOMAIN entry :
             LET up == Idom(Dom, n) IN
             /\ up \in DOMAIN entry \union {NOBODY}
             /\ entry' = entry @@ (n :> (IF n \in phi THEN N + n ELSE IF up = NOBODY THEN 0 ELSE exit[up]))
             /\ exit' = exit @@ (n :> (IF Writes(n) THEN n ELSE entry'[n]))
        /\ UNCHANGED <<edges, op, phi, phase, at, value, store>>
RemoveDead == /\ phase = "name" /\ DOMAIN entry = Nodes /\ phase' = "run"
              /\ phi' = {n \in phi : ~KillsFirst(n)}
              /\ store' = [store EXCEPT ![0] = 0]
              /\ UNCHANGED <<edges, op, entry, exit, at, value>>
\* About to execute node "at", its phi already done: the value of the variable is who wrote it last
Execute == /\ phase = "run"
           /\ LET v == IF Writes(at) THEN at ELSE value
                  s == IF Writes(at) THEN [store EXCEPT ![at] = at] ELSE store
              IN \E to \in SuccOf(edges, at) :
                   /\ at' = to /\ value' = v
                   /\ store' = IF to \in phi THEN [s EXCEPT ![N + to] = s[exit[at]]] ELSE s
           /\ UNCHANGED <<edges, op, phi, entry, exit, phase>>
Next == Place \/ Name \/ RemoveDead \/ Execute
Spec == Init /\ [][Next]_vars

\* What is read through the names is what the variable has
ReadsRight == phase = "run" /\ ReadsFirst(at) => store[entry[at]] = value
\* The judgement on real namings: only one name may reach a read, and it is the given one
Gen == [n \in Nodes |-> IF Writes(n) THEN n ELSE IF n \in phi THEN N + n ELSE -1]
OneName == phase = "run" /\ at = 1 =>
    LET out == Out(edges, 1, Gen) IN
    /\ \A n \in Nodes : ReadsFirst(n) => (IF n \in phi THEN {N + n} ELSE In(edges, 1, out, n)) = {entry[n]}
    /\ \A n \in phi : \A m \in PredOf(edges, n) : out[m] = {exit[m]}
=============================================================================
