----------------------------- MODULE PipelineMC -----------------------------
(***************************************************************************)
(* Every recovery of a small program, whatever sound scores each pass      *)
(* gives.                                                                  *)
(***************************************************************************)
EXTENDS Pipeline, TLC
CONSTANTS ADDRS, CANDS, SOUND
VARIABLES phase, prog, sc, pass, stable, initial, final
vars == <<phase, prog, sc, pass, stable, initial, final>>

O == [e |-> 1, t |-> 1]
\* The second candidate may read as the original does
C(n, same) == [e |-> n, t |-> IF n = 2 /\ same THEN 1 ELSE n]
Programs == {[i \in 1..n |-> C(p[i], same)] : n \in 1..CANDS, same \in BOOLEAN, p \in Permutations(1..CANDS)}
Grades == {[r |-> 0, g |-> 0], [r |-> 1, g |-> 1], [r |-> 2, g |-> 1], [r |-> 3, g |-> 2]}
Scorings(cs) == [{cs[i].e : i \in DOMAIN cs} -> Grades]
Total(p) == FoldSet(LAMBDA a, s : s + Len(p[a]), 0, DOMAIN p)
AllScorings == {s \in [1..ADDRS -> UNION {Scorings(prog[a]) : a \in 1..ADDRS}] : \A a \in 1..ADDRS : DOMAIN s[a] = {prog[a][i].e : i \in DOMAIN prog[a]}}
\* one of the orders, as the listing leaves it
Sort(cs, s) == CHOOSE ds \in {[i \in DOMAIN cs |-> cs[p[i]]] : p \in Permutations(DOMAIN cs)} : Ordered(ds, s)

Init == /\ phase = "corrupted" /\ prog = [a \in 1..ADDRS |-> <<O>>]
        /\ sc = <<>> /\ pass = 0 /\ stable = FALSE /\ initial = <<>> /\ final = <<>>
Corrupt == /\ phase = "corrupted" /\ phase' = "pass"
           /\ prog' \in [1..ADDRS -> {p \in Programs : HasOriginal(p, O)}]
           /\ initial' = prog' /\ UNCHANGED <<sc, pass, stable, final>>
Score == /\ phase = "pass" /\ phase' = "scored" /\ pass' = pass + 1
         /\ sc' \in {s \in AllScorings : SOUND => \A a \in 1..ADDRS : prog[a] # <<>> => SoundAt(prog[a], s[a], O)}
         /\ UNCHANGED <<prog, stable, initial, final>>
Report == /\ phase = "scored" /\ phase' = "reported"
          /\ prog' = [a \in DOMAIN prog |-> Sort(prog[a], sc[a])]
          /\ UNCHANGED <<sc, pass, stable, initial, final>>
Prune == /\ phase = "reported"
         /\ prog' = LeftAll(prog, sc)
         /\ stable' = (prog' = prog)
         /\ phase' = IF stable' THEN "stable" ELSE "pass"
         /\ UNCHANGED <<sc, pass, initial, final>>
Constrain == /\ phase = "stable" /\ \A a \in DOMAIN prog : HasOriginal(prog[a], O)
             /\ \E n \in [1..ADDRS -> 0..CANDS] :
                  prog' = [a \in DOMAIN prog |-> SelectSeq(prog[a], LAMBDA x : x.e = 1 \/ x.e > n[a])]
             /\ phase' = "constrained" /\ UNCHANGED <<sc, pass, stable, initial, final>>
Refuse == /\ phase = "stable" /\ \E a \in DOMAIN prog : ~HasOriginal(prog[a], O)
          /\ phase' = "refused" /\ UNCHANGED <<prog, sc, pass, stable, initial, final>>
Store == /\ phase = "constrained" /\ phase' = "stored"
         /\ final' = [a \in DOMAIN prog |-> Stored(prog[a], O)]
         /\ UNCHANGED <<prog, sc, pass, stable, initial>>
Next == Corrupt \/ Score \/ Report \/ Prune \/ Constrain \/ Refuse \/ Store
NextSound == Corrupt \/ Score \/ Report \/ Prune \/ Constrain \/ Store
SpecSound == Init /\ [][NextSound]_vars /\ WF_vars(NextSound)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

In(cs, x) == \E i \in DOMAIN cs : cs[i] = x
OriginalKept == SOUND => \A a \in DOMAIN prog : HasOriginal(prog[a], O)
NothingAdded == initial # <<>> => \A a \in DOMAIN prog : \A i \in DOMAIN prog[a] : In(initial[a], prog[a][i])
\* All passes but the last discard something
PassesAreFew == initial # <<>> => pass <= Total(initial) + 1
StableIsAFixedPoint == phase = "stable" => LeftAll(prog, sc) = prog
\* No address has null scores left, nor is in doubt with a certain one
NothingLeftToDiscard == phase = "stable" =>
    \A a \in DOMAIN prog : /\ \A i \in DOMAIN prog[a] : sc[a][prog[a][i].e].g # 0
                           /\ Cardinality({sc[a][prog[a][i].e].g : i \in DOMAIN prog[a]}) = 2 => ~\E i \in DOMAIN prog[a] : sc[a][prog[a][i].e].g = 2
FinalEndsWithTheOriginal == final # <<>> => \A a \in DOMAIN final : final[a] # <<>> /\ final[a][Len(final[a])] = O
\* The figures of a report add up
FiguresAddUp == phase = "reported" =>
    LET o == [a \in DOMAIN prog |-> O] IN
    /\ Errors(prog) = With(prog, sc, o, "fail") + With(prog, sc, o, "tie") + With(prog, sc, o, "ok")
    /\ FoldSet(LAMBDA d, s : s + d[2], 0, Depths(prog, o)) <= Errors(prog)
    \* an original that is better than all of the others wins
    /\ \A a \in DOMAIN prog :
         (/\ Len(prog[a]) > 1 /\ HasOriginal(prog[a], O)
          /\ \A i \in DOMAIN prog[a] : prog[a][i].e # 1 => sc[a][prog[a][i].e].r < sc[a][1].r) => Verdict(prog[a], sc[a], O) = "ok"
OnlyStoredIfWhole == phase = "stored" => \A a \in DOMAIN prog : HasOriginal(prog[a], O)
Fewer == [][initial # <<>> => \A a \in DOMAIN prog : Len(prog'[a]) <= Len(prog[a])]_vars
Ends == <>(phase \in {"stored", "refused"})
=============================================================================
