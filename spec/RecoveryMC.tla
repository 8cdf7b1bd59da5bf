----------------------------- MODULE RecoveryMC -----------------------------
(***************************************************************************)
(* Every small program, corrupted in every way, recovered pass after pass. *)
(***************************************************************************)
EXTENDS Recovery, FiniteSetsExt
CONSTANTS ADDRS,        \* how many addresses
          OTHERS,       \* how many candidates besides the original, at most
          CONDS, OPS, STORS, FREE
VARIABLES orig, prog, passes, stable, total
vars == <<orig, prog, passes, stable, total>>

Inst == [undef : {FALSE}, cond : CONDS, op : OPS, stor : SUBSET STORS, free : FREE]
Undef == [undef |-> TRUE, cond |-> 0, op |-> 0, stor |-> {}, free |-> FALSE]
Lists == UNION {[1..n -> Inst \cup {Undef}] : n \in 0..OTHERS}
Count(p) == FoldSet(LAMBDA a, s : s + Len(p[a]), 0, DOMAIN p)

\* The original comes last: the order does not matter, but that a pass keeps it
Init == /\ orig \in [1..ADDRS -> Inst]
        /\ \E others \in [1..ADDRS -> Lists] : prog = [a \in 1..ADDRS |-> Append(others[a], orig[a])]
        /\ passes = 0 /\ stable = FALSE
        /\ total = Count(prog)

DoPass == /\ ~stable
          /\ prog' = Pass(orig, prog)
          /\ stable' = (prog' = prog)
          /\ passes' = passes + 1
          /\ UNCHANGED <<orig, total>>
Next == DoPass
Spec == Init /\ [][Next]_vars

OriginalStays == \A a \in DOMAIN prog : \E i \in DOMAIN prog[a] : prog[a][i] = orig[a]
\* The scores of candidates are ratios of these counts, so they are probabilities
RatiosAreProbabilities ==
    /\ \A k \in CONDS : InOriginal(orig, LAMBDA o : o.cond = k) <= Possible(prog, LAMBDA y : y.cond = k)
    /\ \A k \in OPS : InOriginal(orig, LAMBDA o : o.op = k) <= Possible(prog, LAMBDA y : y.op = k)
    /\ \A k \in STORS : InOriginal(orig, LAMBDA o : k \in o.stor) <= Possible(prog, LAMBDA y : k \in y.stor)
\* Passes come to an end: all but the last remove something
Ends == passes <= total - ADDRS + 1
StableHasNoUndefined == stable => \A a \in DOMAIN prog : \A i \in DOMAIN prog[a] : Alive(orig, prog[a][i])
OnlyRemoves == [][\A a \in DOMAIN prog : Len(prog'[a]) <= Len(prog[a])]_vars
=============================================================================
