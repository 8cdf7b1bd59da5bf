------------------------------- MODULE Union -------------------------------
(***************************************************************************)
(* P22: the probability that some of several independent events happens,   *)
(* and that all of them do.  Probabilities are whole numbers of M-ths; the *)
(* result for n of them is a whole number of M^n-ths.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE s[1] * Product(Tail(s))
All(ps) == Product(ps)
Some(ps, M) == M^Len(ps) - Product([i \in DOMAIN ps |-> M - ps[i]])
=============================================================================
