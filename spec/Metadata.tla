------------------------------ MODULE Metadata ------------------------------
(***************************************************************************)
(* P08: the statistics of a program that travel with it.                   *)
(*                                                                         *)
(* An instruction is a record [undef, e, cond, op, used, read, written]:   *)
(* the last three are sets of storages (registers and memory).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Defined(prog) == SelectSeq(prog, LAMBDA x : ~x.undef)
Having(seq, Has(_)) == Cardinality({i \in DOMAIN seq : Has(seq[i])})

CondsOf(prog) == {x.cond : x \in {Defined(prog)[i] : i \in DOMAIN Defined(prog)}}

\* The reads of s that find a value written before and not read since then; the pair of places
Pairs(def, s) ==
    {p \in (DOMAIN def) \X (DOMAIN def) :
        /\ p[1] < p[2] /\ s \in def[p[1]].written /\ s \in def[p[2]].read
        /\ \A k \in (p[1] + 1)..(p[2] - 1) : s \notin def[k].written /\ s \notin def[k].read}
DistanceOf(p) == p[2] - p[1] - 1
Distances(def, s) == {DistanceOf(p) : p \in Pairs(def, s)}
SumDist(def, s) == FoldSet(LAMBDA p, t : t + DistanceOf(p), 0, Pairs(def, s))
=============================================================================
