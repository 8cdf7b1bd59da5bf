------------------------------ MODULE DrawMC -------------------------------
(***************************************************************************)
(* The writer goes over the edges as the graph lists them, in any order; a *)
(* graph with no direction lists each twice, once from each end.  Lines    *)
(* already written are remembered by the pair of names.                    *)
(***************************************************************************)
EXTENDS Draw
CONSTANTS Names, MaxEdges
VARIABLES directed, edges, todo, seen, lines, pc
vars == <<directed, edges, todo, seen, lines, pc>>
Pairs == Names \X Names
Listed(d, es) == IF d THEN es ELSE es \cup {<<p[2], p[1]>> : p \in es}
Init == /\ directed \in BOOLEAN
        /\ edges \in {es \in SUBSET Pairs : Cardinality(es) <= MaxEdges}
        /\ todo = Listed(directed, edges)
        /\ seen = {} /\ lines = <<>> /\ pc = "going"
Draw(p) == /\ pc = "going" /\ p \in todo
           /\ p \notin seen /\ (directed \/ <<p[2], p[1]>> \notin seen)
           /\ todo' = todo \ {p} /\ seen' = seen \cup {p} /\ lines' = Append(lines, p)
           /\ UNCHANGED <<directed, edges, pc>>
Skip(p) == /\ pc = "going" /\ p \in todo
           /\ (p \in seen \/ (~directed /\ <<p[2], p[1]>> \in seen))
           /\ todo' = todo \ {p} /\ UNCHANGED <<directed, edges, seen, lines, pc>>
End == /\ pc = "going" /\ todo = {} /\ pc' = "end" /\ UNCHANGED <<directed, edges, todo, seen, lines>>
DoDraw == \E p \in todo : Draw(p)
DoSkip == \E p \in todo : Skip(p)
Next == DoDraw \/ DoSkip \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Of(es) == {EdgeOf(directed, p[1], p[2]) : p \in es}
NothingElse == EdgesDrawn(directed, lines) \subseteq Of(edges)
EachOnce == OnceEach(directed, lines)
AllDrawn == (pc = "end") => EdgesDrawn(directed, lines) = Of(edges)
AsMany == (pc = "end") => Len(lines) = Cardinality(Of(edges))
NoneForgotten == Of(edges) = EdgesDrawn(directed, lines) \cup Of(todo)
Ends == <>(pc = "end")
=============================================================================
