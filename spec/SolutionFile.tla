---------------------------- MODULE SolutionFile ----------------------------
(***************************************************************************)
(* P14, P15: what is stored of a program and what is read back.            *)
(* A program is a sequence of addresses, each one with its candidates.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The place of the original among the candidates, 0 if it is not one of them
PlaceOf(cands, orig) ==
    IF \E i \in DOMAIN cands : cands[i] = orig
    THEN CHOOSE i \in DOMAIN cands : cands[i] = orig /\ \A j \in 1..(i - 1) : cands[j] # orig
    ELSE 0

\* A solution keeps the candidates up to the original: those after it were ruled out
Kept(cands, orig) == SubSeq(cands, 1, PlaceOf(cands, orig))
Storable(program, orig) == \A i \in DOMAIN program : PlaceOf(program[i], orig[i]) > 0
=============================================================================
