------------------------------ MODULE Recovery ------------------------------
(***************************************************************************)
(* P09, P10: the recovery of a corrupted program out of its statistics.    *)
(*                                                                         *)
(* A program is a sequence of addresses, each a sequence of candidates     *)
(*   [undef, cond, op, stor (set), free].                                  *)
(* free: branches, pushes and pops, of which the registers are not looked  *)
(* at.  The statistics are those of the original program.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* How many originals have something
InOriginal(orig, Has(_)) == Cardinality({i \in DOMAIN orig : ~orig[i].undef /\ Has(orig[i])})
\* At how many addresses something is possible
Possible(prog, Has(_)) ==
    Cardinality({a \in DOMAIN prog : \E i \in DOMAIN prog[a] : ~prog[a][i].undef /\ Has(prog[a][i])})

\* The statistics rule a candidate out if the program has nothing like it
Alive(orig, x) ==
    /\ ~x.undef
    /\ InOriginal(orig, LAMBDA o : o.cond = x.cond) > 0
    /\ InOriginal(orig, LAMBDA o : o.op = x.op) > 0
    /\ x.free \/ \A s \in x.stor : InOriginal(orig, LAMBDA o : s \in o.stor) > 0

\* and force a condition, or an operation, if it is possible at no more addresses than those that have it
Forced(orig, prog, x) ==
    \/ InOriginal(orig, LAMBDA o : o.cond = x.cond) = Possible(prog, LAMBDA y : y.cond = x.cond)
    \/ InOriginal(orig, LAMBDA o : o.op = x.op) = Possible(prog, LAMBDA y : y.op = x.op)

\* What a pass leaves at an address
Left(orig, prog, a) ==
    LET alive(x) == Alive(orig, x)
        sure(x) == alive(x) /\ Forced(orig, prog, x)
    IN IF \E i \in DOMAIN prog[a] : sure(prog[a][i]) THEN SelectSeq(prog[a], sure) ELSE SelectSeq(prog[a], alive)
Pass(orig, prog) == [a \in DOMAIN prog |-> Left(orig, prog, a)]
=============================================================================
