------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* P26: a recovery from end to end.  A program is corrupted, its           *)
(* candidates are scored and discarded pass after pass until nothing else  *)
(* can be, then weighed, constrained and stored.  Each step is reported.   *)
(*                                                                         *)
(* An address has a sequence of candidates [e |-> encoding, t |-> text];   *)
(* a score is [r |-> rank (the higher the better), g |-> 0 if it is null,  *)
(* 2 if it is one, 1 in between].                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

\* What is left of an address once its candidates have scores (a function of the encoding)
Left(cs, sc) ==
    IF \E i \in DOMAIN cs : sc[cs[i].e].g = 2 THEN SelectSeq(cs, LAMBDA x : sc[x.e].g = 2)
    ELSE SelectSeq(cs, LAMBDA x : sc[x.e].g # 0)
LeftAll(prog, sc) == [a \in DOMAIN prog |-> Left(prog[a], sc[a])]

\* Scores that do not rule the original out
SoundAt(cs, sc, o) == /\ sc[o.e].g # 0
                      /\ (\E i \in DOMAIN cs : sc[cs[i].e].g = 2) => sc[o.e].g = 2

\* A listing of the candidates: all of them, the best first
SameCandidates(cs, ds) == /\ Len(cs) = Len(ds)
                          /\ {cs[i] : i \in DOMAIN cs} = {ds[i] : i \in DOMAIN ds}
Ordered(cs, sc) == \A i \in DOMAIN cs : i > 1 => sc[cs[i - 1].e].r >= sc[cs[i].e].r
ListingOf(cs, ds, sc) == SameCandidates(cs, ds) /\ Ordered(ds, sc)

\* What is said of an address listed in that order
Verdict(cs, sc, o) ==
    IF Len(cs) < 2 THEN "none"
    ELSE IF cs[1].t # o.t THEN "fail"
    ELSE IF sc[cs[1].e].r = sc[cs[2].e].r /\ cs[2].t # cs[1].t THEN "tie"
    ELSE "ok"
TiedWithTheFirst(cs, sc) == CHOOSE n \in 1..Len(cs) : /\ \A i \in 1..n : sc[cs[i].e].r = sc[cs[1].e].r
                                                      /\ n = Len(cs) \/ sc[cs[n + 1].e].r # sc[cs[1].e].r
\* Of the whole program
With(prog, sc, orig, v) == Cardinality({a \in DOMAIN prog : Verdict(prog[a], sc[a], orig[a]) = v})
Errors(prog) == Cardinality({a \in DOMAIN prog : Len(prog[a]) > 1})
DepthOf(cs, o) == IF \E i \in DOMAIN cs : cs[i].e = o.e THEN Min({i \in DOMAIN cs : cs[i].e = o.e}) - 1 ELSE -1
Depths(prog, orig) ==
    LET ds == [a \in {a \in DOMAIN prog : Len(prog[a]) > 1} |-> DepthOf(prog[a], orig[a])]
    IN {<<d, Cardinality({a \in DOMAIN ds : ds[a] = d})>> : d \in {ds[a] : a \in DOMAIN ds} \ {-1}}

\* Rules by which the winner of an address beats its original, wrongly: a score also has u, what each rule said of it
RulesOf(x) == {x.u[i].k : i \in DOMAIN x.u}
ByRule(x, k) == x.u[CHOOSE i \in DOMAIN x.u : x.u[i].k = k]
Misled(cs, sc, o) ==
    IF Verdict(cs, sc, o) = "fail" /\ (\E i \in DOMAIN cs : cs[i].e = o.e)
    THEN {k \in RulesOf(sc[cs[1].e]) \cap RulesOf(sc[o.e]) : ByRule(sc[cs[1].e], k).r > ByRule(sc[o.e], k).r}
    ELSE {}
BadRules(prog, sc, orig) ==
    LET ms == [a \in DOMAIN prog |-> Misled(prog[a], sc[a], orig[a])]
    IN {<<k, Cardinality({a \in DOMAIN ms : k \in ms[a]})>> : k \in UNION {ms[a] : a \in DOMAIN ms}}
\* How many are tied at the addresses where some are
Ties(prog, sc, orig) == LET as == {a \in DOMAIN prog : Verdict(prog[a], sc[a], orig[a]) = "tie"}
                        IN MapThenSumSet(LAMBDA a : TiedWithTheFirst(prog[a], sc[a]), as)

\* Candidates stored: up to the original
Stored(cs, o) == SubSeq(cs, 1, DepthOf(cs, o) + 1)
HasOriginal(cs, o) == DepthOf(cs, o) >= 0

\* Constraining drops some candidates, never the original, and keeps the order of the others
Constrained(cs, ds, o) == /\ SelectSeq(cs, LAMBDA x : \E i \in DOMAIN ds : ds[i] = x) = ds
                          /\ HasOriginal(cs, o) => HasOriginal(ds, o)
=============================================================================
