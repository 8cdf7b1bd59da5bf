----------------------------- MODULE Neighbours -----------------------------
(***************************************************************************)
(* P29: how a candidate is weighed by what is around it.                   *)
(*                                                                         *)
(* A program is a sequence of addresses, each a sequence of candidates     *)
(*   [undef, cond, flags (whether it may change them), branch, push, pop,  *)
(*    written, readregs (registers), swritten, sread (storages)].          *)
(* Weights are ratios <<n, d>> of millionths, or millionths.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

ALWAYS == 14
LOW == 1000        \* what is unlikely, in millionths
PC == 15
LR == 14
SP == 13
Defined(cs) == {i \in DOMAIN cs : ~cs[i].undef}
Count(cs, Has(_)) == Cardinality({i \in Defined(cs) : Has(cs[i])})
MaxOf(a, b) == IF a > b THEN a ELSE b

(* The flow: a conditional instruction comes after one that changes the    *)
(* flags or among others of the same condition.                            *)
\* n, m: how many candidates before and after; s, f, u: of those before, how many have the same condition, change the flags,
\* or either; a: how many after have the same condition
FlowOf(cond, n, m, s, f, u, a) ==
    LET k == IF m = 0 THEN 1 ELSE m
        bothThenBefore(x, both, before) == <<MaxOf(x * a * both, x * k * before), n * k>>
        r == IF cond # ALWAYS
             THEN IF s > 0 /\ f > 0 THEN bothThenBefore(u, 850000, 650000)
                  ELSE IF s > 0 THEN bothThenBefore(s, 700000, 650000)
                  ELSE IF f > 0 THEN bothThenBefore(f, 760000, 600000)
                  ELSE <<0, 1>>
             ELSE IF f > 0 THEN <<f * 400000, n>>
                  ELSE IF s > 0 THEN bothThenBefore(s, 700000, 650000)
                  ELSE <<a * 650000, k>>
    IN IF r[1] = 0 THEN <<LOW, 1>> ELSE r
\* before, after: the candidates of the addresses next to it (none if there is no such address)
Flow(x, before, after) ==
    FlowOf(x.cond, Cardinality(Defined(before)), Cardinality(Defined(after)),
           Count(before, LAMBDA y : y.cond = x.cond), Count(before, LAMBDA y : y.flags),
           Count(before, LAMBDA y : y.cond = x.cond \/ y.flags), Count(after, LAMBDA y : y.cond = x.cond))

(* The stack: what a function pushes at its beginning is what it pops.     *)
SameRegisters(push, pop) == /\ pop.written \subseteq push.readregs \cup {PC}
                            /\ push.readregs \subseteq pop.written \cup {LR, SP}
\* A push, with the candidates of the last address of the function and of those in between
PushWeight(x, total, last, inside) ==
    LET equal == \E i \in Defined(last) : last[i].pop /\ SameRegisters(x, last[i])
        atEnd == \E i \in Defined(last) : last[i].pop
        popIn == \E a \in DOMAIN inside : Count(inside[a], LAMBDA y : y.pop) > 0
        branchIn == \E a \in DOMAIN inside : a > 1 /\ Count(inside[a], LAMBDA y : y.branch) > 0
        some == MaxOf(IF atEnd THEN 700000 ELSE 0, IF popIn /\ branchIn THEN 650000 ELSE 0)
    IN IF equal THEN <<999900, 1>> ELSE <<MaxOf(some * total, 1000000), total>>
\* A pop, with the candidates where the function begins
PopWeight(x, total, first) ==
    LET equal == \E i \in Defined(first) : first[i].push /\ SameRegisters(first[i], x)
        some == IF \E i \in Defined(first) : first[i].push THEN 700000 ELSE 0
    IN IF equal THEN <<999900, 1>> ELSE <<MaxOf(some * total, 1000000), total>>

(* The distance: what is read was written as far as in the original.       *)
\* The chance that none of some addresses writes a storage, in millionths
RECURSIVE NotWritten(_, _)
NotWritten(s, around) ==
    IF around = <<>> THEN 1000000
    ELSE LET cs == Head(around)
             t == Cardinality(Defined(cs))
             w == Count(cs, LAMBDA y : s \in y.swritten)
             p == NotWritten(s, Tail(around))
         IN IF t = 0 THEN p ELSE (p * (t - w)) \div t
Written(s, around) ==
    LET never == \A a \in DOMAIN around : Count(around[a], LAMBDA y : s \in y.swritten) = 0
    IN IF never THEN LOW ELSE 1000000 - NotWritten(s, around)
=============================================================================
