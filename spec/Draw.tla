------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* P33: graphs written in the dot language.                                *)
(* A drawing is made of lines: one for each node, one for each edge.  Only *)
(* what a line says matters, not where it is.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* The edge that a line from a to b draws, in a directed graph or not
EdgeOf(directed, a, b) == IF directed THEN <<a, b>> ELSE {a, b}
EdgesDrawn(directed, lines) == {EdgeOf(directed, l[1], l[2]) : l \in {lines[k] : k \in DOMAIN lines}}
OnceEach(directed, lines) == \A j, k \in DOMAIN lines : (EdgeOf(directed, lines[j][1], lines[j][2]) = EdgeOf(directed, lines[k][1], lines[k][2])) => j = k
\* What an edge shows as label: its own one, its weight if asked for and it has none
LabelOf(label, weight, weighted) == IF label # "" THEN label ELSE IF weighted THEN weight ELSE ""
\* A block of a flow graph: its number, then what it has
BlockText(b) ==
    LET n == ToString(b.idx) IN
    CASE b.kind = "root" -> n \o "-ROOT"
      [] b.kind = "end" -> n \o "-END"
      [] b.kind = "unknown" -> n \o "-UNKWN"
      [] b.kind = "cond" -> " <" \o n \o "> "
      [] OTHER -> IF b.size = 1 THEN n \o "-" \o b.first ELSE n \o "- " \o b.first \o " ... " \o b.last
=============================================================================
