-------------------------------- MODULE Csp --------------------------------
(***************************************************************************)
(* P13: the programs that agree with the statistics.  For each address one *)
(* candidate is picked; what is picked has to have each condition, each    *)
(* operation and each storage as many times as the statistics say.         *)
(* A candidate: [ignore, keys]: keys is the set of all those things.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

\* Statistics: a function from keys to how many times
Has(picked, k) == Cardinality({a \in DOMAIN picked : ~picked[a].ignore /\ k \in picked[a].keys})
KeysOf(picked) == UNION {picked[a].keys : a \in {a \in DOMAIN picked : ~picked[a].ignore}}
Matches(picked, stats) == /\ KeysOf(picked) \subseteq DOMAIN stats
                          /\ \A k \in DOMAIN stats : Has(picked, k) = stats[k]

\* The ways of picking: one index of a candidate for each address that has any
WithAny(prog) == {a \in DOMAIN prog : prog[a] # <<>>}
AllChoices(prog) == {f \in [WithAny(prog) -> 1..8] : \A a \in WithAny(prog) : f[a] \in DOMAIN prog[a]}
\* The same, an address after another (long programs have few choices at most of them)
OneByOne(prog) ==
    FoldSet(LAMBDA a, S : {f @@ (a :> i) : f \in S, i \in DOMAIN prog[a]}, {<<>>}, WithAny(prog))
Solutions(prog, stats) == {f \in OneByOne(prog) : Matches([a \in WithAny(prog) |-> prog[a][f[a]]], stats)}
=============================================================================
