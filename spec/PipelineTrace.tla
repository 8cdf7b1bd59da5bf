--------------------------- MODULE PipelineTrace ---------------------------
(***************************************************************************)
(* P26: recoveries run by the real run_recovery, event by event, against   *)
(* the machine of Pipeline.                                                *)
(***************************************************************************)
EXTENDS VFTrace, Pipeline
Q == INSTANCE Quality
VARIABLES c,      \* case
          l,      \* event
          prog, sc, phase, pass
tvars == <<c, l, prog, sc, phase, pass>>
X == Cases[c]
E == X.events[l]
O == X.orig                                   \* [e, t] by address
Addrs == DOMAIN X.orig

\* Scores come as they were seen: [a] -> sequence of [e, r, g, m]
Scores(ss) == [a \in Addrs |-> [e \in {ss[a][i].e : i \in DOMAIN ss[a]} |->
                  LET i == CHOOSE i \in DOMAIN ss[a] : ss[a][i].e = e IN
                    [r |-> ss[a][i].r, g |-> ss[a][i].g, m |-> ss[a][i].m, u |-> ss[a][i].u]]]
Encs(cs) == [i \in DOMAIN cs |-> cs[i].e]
AllEncs(p) == [a \in DOMAIN p |-> Encs(p[a])]
\* The candidates of an address in the order of a report, if it lists them
Listed(a, R) == [i \in DOMAIN R.at[a].encs |->
                   LET js == {j \in DOMAIN prog[a] : prog[a][j].e = R.at[a].encs[i]} IN
                   IF js = {} THEN [e |-> R.at[a].encs[i], t |-> -1] ELSE prog[a][CHOOSE j \in js : TRUE]]
Arranged(R) == [a \in Addrs |-> IF Len(prog[a]) > 1 THEN Listed(a, R) ELSE prog[a]]
Abs(x) == IF x < 0 THEN -x ELSE x

\* What each rule said of a candidate, in any order
SameRules(us, vs) == /\ Len(us) = Len(vs)
                     /\ \A i \in DOMAIN us : \E j \in DOMAIN vs : us[i].k = vs[j].k /\ Abs(us[i].m - vs[j].m) <= 1
                     /\ \A j \in DOMAIN vs : \E i \in DOMAIN us : us[i].k = vs[j].k

\* A report of the candidates p (arranged) with the scores s
JudgeReport(R, p, s) ==
    /\ Req(X, "ReportHasEachAddress", Len(R.at) = Len(O) /\ R.complete)
    /\ Len(R.at) = Len(O) =>
       /\ \A a \in Addrs :
            /\ Req(X, "ReportNamesTheOriginal", R.at[a].orig = O[a].t)
            /\ Req(X, "ReportListsTheCandidatesBestFirst",
                   IF Len(prog[a]) > 1 THEN ListingOf(prog[a], p[a], s[a]) ELSE R.at[a].encs = <<>>)
            /\ (Len(prog[a]) > 1 /\ ListingOf(prog[a], p[a], s[a])) =>
               /\ Req(X, "ReportTellsTheScores", \A i \in DOMAIN p[a] : Abs(R.at[a].m[i] - s[a][p[a][i].e].m) <= 1)
               /\ Req(X, "ReportTellsWhatEachRuleSaid", \A i \in DOMAIN p[a] : SameRules(R.at[a].rules[i], s[a][p[a][i].e].u))
               /\ Req(X, "RulesThatMisled", {R.at[a].misled[i].k : i \in DOMAIN R.at[a].misled} = Misled(p[a], s[a], O[a])
                      /\ \A i \in DOMAIN R.at[a].misled :
                           LET x == R.at[a].misled[i] IN
                           x.k \in Misled(p[a], s[a], O[a]) => /\ Abs(x.m - ByRule(s[a][p[a][1].e], x.k).m) <= 1
                                                             /\ Abs(x.o - ByRule(s[a][O[a].e], x.k).m) <= 1)
               /\ Req(X, "ReportMarksTheOriginal", \A i \in DOMAIN p[a] : R.at[a].mark[i] = (p[a][i].e = O[a].e))
               /\ Req(X, "Verdict", R.at[a].verdict = Verdict(p[a], s[a], O[a]))
               /\ Req(X, "HowManyTie", R.at[a].verdict = "tie" => R.at[a].ties = TiedWithTheFirst(p[a], s[a]))
       /\ (\A a \in Addrs : Len(prog[a]) > 1 => ListingOf(prog[a], p[a], s[a])) =>
            LET e == Errors(p)
                ok == With(p, s, O, "ok") IN
            /\ Req(X, "Figures", R.errors = e /\ R.fail = With(p, s, O, "fail") /\ R.tie = With(p, s, O, "tie") /\ R.ok = ok)
            /\ Req(X, "RatioRecovered", IF e = 0 THEN R.ratio = 1000000 ELSE Abs(R.ratio * e - ok * 1000000) <= e)
            /\ Req(X, "BadRules", ToSet(R.bad) = BadRules(p, s, O) /\ R.none = (BadRules(p, s, O) = {}))
            /\ Req(X, "AverageTie", LET n == With(p, s, O, "tie") IN
                                    IF n > 1 THEN Abs(R.average * n - Ties(p, s, O) * 1000000) <= n ELSE R.average = -1)
            /\ Req(X, "DepthsOfTheOriginals", {<<R.depths[i][1], R.depths[i][2]>> : i \in DOMAIN R.depths} = Depths(p, O))

\* The n-th figures it tells are those of the candidates p: their number modulo some primes, the bits, how many addresses have how many
JudgeFigures(n, p) ==
    LET ns == [a \in DOMAIN p |-> Len(p[a])] IN
    /\ Req(X, "TellsHowItGoes", n <= Len(X.figures))
    /\ n <= Len(X.figures) =>
         LET F == X.figures[n] IN
         Req(X, "TellsTheRightFigures", /\ \A m \in DOMAIN X.mods : F.counts[m] = Q!ProductMod(ns, X.mods[m])
                                       /\ {<<F.bins[i][1], F.bins[i][2]>> : i \in DOMAIN F.bins} = Q!BinsOf(ns)
                                       /\ (\A a \in DOMAIN ns : ns[a] <= 64) => Abs(F.size - Q!SizeOf(ns)) <= Len(ns) + 2)

GivenStep ==   \* what the corruptor was given
    /\ E.ev = "given" /\ phase = "begin" /\ phase' = "given"
    /\ Req(X, "TheProgramIsCorrupted", E.prog = [a \in Addrs |-> <<O[a].e>>])
    /\ UNCHANGED <<prog, sc, pass>>
CorruptStep ==
    /\ E.ev = "corrupted" /\ phase = "given" /\ phase' = "corrupted"
    /\ prog' = [a \in Addrs |-> [i \in DOMAIN E.prog[a] |-> E.prog[a][i]]]
    /\ JudgeFigures(1, prog')
    /\ sc' = Scores(E.scores) /\ UNCHANGED pass
\* The report of the candidates as they are: it leaves them in its order
ReportStep ==
    /\ E.ev = "report" /\ phase \in {"corrupted", "scored", "weighed", "constrained"}
    /\ phase' = (CASE phase = "corrupted" -> "ready" [] phase = "scored" -> "reported"
                   [] phase = "weighed" -> "constraining" [] OTHER -> "storing")
    /\ LET p == Arranged(E.report) IN JudgeReport(E.report, p, sc) /\ prog' = p
    /\ UNCHANGED <<sc, pass>>
InitialStep ==
    /\ E.ev = "initial" /\ phase = "ready" /\ phase' = "pass"
    /\ Req(X, "InitialSolutionStored", E.magic /\ E.cands = [a \in Addrs |-> Encs(Stored(prog[a], O[a]))])
    /\ UNCHANGED <<prog, sc, pass>>
ScoreStep ==
    /\ E.ev = "scored" /\ phase = "pass" /\ phase' = "scored"
    /\ Req(X, "PassGetsWhatTheLastOneLeft", E.seen = AllEncs(prog))
    /\ Req(X, "StatisticsOfTheOriginal", E.meta)
    /\ Req(X, "FunctionsOfTheProgram", ToSet(E.fns) = ToSet(X.fns))
    /\ Req(X, "PassesAskedFor", E.passes = X.passes)
    /\ sc' = Scores(E.scores) /\ pass' = pass + 1
    /\ prog' = IF E.seen = AllEncs(prog) THEN prog ELSE [a \in Addrs |-> [i \in DOMAIN E.seen[a] |-> [e |-> E.seen[a][i], t |-> E.texts[a][i]]]]
\* Hidden: what was ruled out is discarded, and either that was nothing or another pass follows
PruneStep ==
    /\ phase = "reported"
    /\ prog' = LeftAll(prog, sc) /\ JudgeFigures(pass + 1, prog')
    /\ phase' = IF prog' = prog THEN "stable" ELSE "pass"
    /\ UNCHANGED <<sc, pass, l>>
\* Once stable, the candidates are weighed: their scores are the final ones
WeighStep ==
    /\ E.ev = "weighed" /\ phase = "stable" /\ phase' = "weighed"
    /\ sc' = Scores(E.scores) /\ UNCHANGED <<prog, pass>>
ConstrainStep ==
    /\ E.ev = "constrained" /\ phase = "constraining" /\ phase' = "constrained"
    /\ LET kept == [a \in Addrs |-> IF Len(prog[a]) > 1 /\ Len(E.report.at) = Len(O) THEN
                                      (IF E.report.at[a].encs # <<>> THEN SelectSeq(prog[a], LAMBDA x : x.e \in ToSet(E.report.at[a].encs))
                                       ELSE SelectSeq(prog[a], LAMBDA x : x.e = O[a].e))
                                    ELSE prog[a]]
       IN /\ Req(X, "ConstrainingKeepsTheOriginal", \A a \in Addrs : Constrained(prog[a], kept[a], O[a]))
          /\ prog' = kept /\ JudgeFigures(pass + 2, kept)
    /\ UNCHANGED <<sc, pass>>
FinalStep ==
    /\ E.ev = "final" /\ phase = "storing" /\ phase' = "stored"
    /\ Req(X, "FinalSolutionStored", E.magic /\ E.cands = [a \in Addrs |-> Encs(Stored(prog[a], O[a]))])
    /\ Req(X, "FilesOfTheRecovery", ToSet(E.files) = {"corrupted_program.txt", "initial_solution.sol", "final_solution.sol"}
                                                       \cup {"instructions" \o ToString(k) \o ".txt" : k \in 1..(pass + 2)})
    /\ Req(X, "ProgramGivenIsLeftAsItWas", E.same)
    /\ Req(X, "OutputIsGivenBack", E.stdout)
    /\ Req(X, "TellsHowItGoes", Len(X.figures) = pass + 2)
    /\ UNCHANGED <<prog, sc, pass>>
\* It could not go on
RaisedStep ==
    /\ E.ev = "raised" /\ phase' = "refused"
    /\ Req(X, "OnlyRefusedWithoutAnOriginal", phase \in {"constraining", "storing"} /\ \E a \in Addrs : ~HasOriginal(prog[a], O[a]))
    /\ Req(X, "RefusedIsNotASolution", ~E.readable)
    /\ UNCHANGED <<prog, sc, pass>>

Event == GivenStep \/ CorruptStep \/ ReportStep \/ InitialStep \/ ScoreStep \/ WeighStep \/ ConstrainStep \/ FinalStep \/ RaisedStep
More == c <= Len(Cases) /\ l <= Len(X.events)
\* What may come next
Allowed == {<<"begin", "given">>, <<"given", "corrupted">>, <<"corrupted", "report">>, <<"scored", "report">>, <<"weighed", "report">>,
            <<"constrained", "report">>, <<"ready", "initial">>, <<"pass", "scored">>, <<"stable", "weighed">>,
            <<"constraining", "constrained">>, <<"storing", "final">>} \cup {<<p, "raised">> : p \in
            {"begin", "given", "corrupted", "scored", "weighed", "constrained", "ready", "pass", "stable", "constraining", "storing"}}
Wrong == <<phase, E.ev>> \notin Allowed
Step == \/ More /\ phase # "reported" /\ Event /\ l' = l + 1 /\ UNCHANGED c
        \/ More /\ phase = "reported" /\ PruneStep /\ UNCHANGED c
        \/ /\ More /\ phase # "reported" /\ Wrong
           /\ Fail(X, "StepsOfARecovery") /\ l' = Len(X.events) + 1 /\ phase' = "wrong" /\ UNCHANGED <<c, prog, sc, pass>>
NextCase == /\ c <= Len(Cases) /\ l = Len(X.events) + 1 /\ c' = c + 1 /\ l' = 1
            /\ Req(X, "Ends", phase \in {"stored", "refused", "wrong"})
            /\ prog' = <<>> /\ sc' = <<>> /\ phase' = "begin" /\ pass' = 0
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ UNCHANGED <<l, prog, sc, phase, pass>> /\ Done(Len(Cases))
TraceInit == c = 1 /\ l = 1 /\ prog = <<>> /\ sc = <<>> /\ phase = "begin" /\ pass = 0
TraceNext == Step \/ NextCase \/ Finish
=============================================================================
