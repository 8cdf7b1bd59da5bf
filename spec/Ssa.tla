--------------------------------- MODULE Ssa ---------------------------------
(***************************************************************************)
(* P21: static single assignment.  What is the right naming, by its        *)
(* definition: the name that is read is the one of the last definition     *)
(* that was executed, whatever the path.                                   *)
(***************************************************************************)
EXTENDS Dominance, Sequences

\* Iterated dominance frontier of a set of nodes. df is the frontier of each node that can be reached.
RECURSIVE Iterated(_, _, _)
Iterated(df, new, seen) == IF new = {} THEN seen
                           ELSE LET next == UNION {df[n] : n \in new \cap DOMAIN df} \ seen
                                IN Iterated(df, next, seen \union next)

\* The names of a variable that may be the current one at the end of each node: gen[n] is the name that n leaves
\* (or -1), a name being a number; at the root it is 0
RECURSIVE Flow(_, _, _)
Flow(edges, gen, out) ==
    LET next == [n \in DOMAIN out |->
                   IF gen[n] # -1 THEN {gen[n]}
                   ELSE out[n] \union UNION {out[m] : m \in PredOf(edges, n) \cap DOMAIN out}]
    IN IF next = out THEN out ELSE Flow(edges, gen, next)
Out(edges, root, gen) ==
    Flow(edges, gen, [n \in Reach(edges, root, NOBODY) |-> IF gen[n] # -1 THEN {gen[n]} ELSE IF n = root THEN {0} ELSE {}])
\* At the beginning of a node, before its phi functions
In(edges, root, out, n) == (IF n = root THEN {0} ELSE {}) \union UNION {out[m] : m \in PredOf(edges, n) \cap DOMAIN out}
=============================================================================
