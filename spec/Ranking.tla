------------------------------ MODULE Ranking ------------------------------
(***************************************************************************)
(* P24: how candidates are scored.                                         *)
(***************************************************************************)
EXTENDS Recovery, FiniteSetsExt, TLC

\* Factors are whole numbers of 16ths; f is a function of those that the candidate has, the others being 16.
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 16
\* Which ones matter besides the condition, the operation and the flow
Optional(kind) == CASE kind = "branch"  -> {"pbd"}
                    [] kind = "pushpop" -> {"pr", "pupo"}
                    [] OTHER            -> {"pr", "prd"}
\* of 16^5-ths
Final(f, kind) == LET o == Optional(kind)
                      p(k) == IF k \in o THEN Get(f, k) ELSE 16
                      opt == IF kind = "branch" THEN p("pbd") * 16 ELSE IF kind = "pushpop" THEN p("pr") * p("pupo") ELSE p("pr") * p("prd")
                  IN Get(f, "pc") * Get(f, "po") * Get(f, "pcfg") * opt
\* While candidates are being removed, what is impossible has 0 and what is certain has 1
Certain(f) == (\A k \in DOMAIN f : f[k] # 0) /\ (Get(f, "pc") = 16 \/ Get(f, "po") = 16)
Removing(f, kind) ==
    IF \E k \in DOMAIN f : f[k] = 0 THEN 0
    ELSE IF Certain(f) THEN 16^5
    ELSE Final(f, kind)

\* Ratios as <<how many in the original, at how many addresses it is possible>>
CondRatio(orig, prog, x) == <<InOriginal(orig, LAMBDA o : o.cond = x.cond), Possible(prog, LAMBDA y : y.cond = x.cond)>>
OpRatio(orig, prog, x) == <<InOriginal(orig, LAMBDA o : o.op = x.op), Possible(prog, LAMBDA y : y.op = x.op)>>
StorRatios(orig, prog, x) ==
    {<<InOriginal(orig, LAMBDA o : s \in o.stor), Possible(prog, LAMBDA y : s \in y.stor)>> : s \in x.stor}

\* Where a branch goes: fns is a set of <<first, last>>, fn the function the branch is in (its first address)
Destination(to, known, fn, fns, lowest, highest) ==
    IF ~known THEN "unknown"
    ELSE IF \E f \in fns : f[1] = fn /\ fn <= to /\ to <= f[2] THEN "this function"
    ELSE IF \E f \in fns : f[1] = to THEN "a function"
    ELSE IF to > highest \/ to < lowest THEN "outside"
    ELSE "elsewhere"
\* in thousandths
ChanceOf == [unknown |-> 2, outside |-> 1, elsewhere |-> 2] @@ ("this function" :> 670) @@ ("a function" :> 700)

(* The counting rules: what is left to place of a thing, shared among the  *)
(* candidates that would use it.                                           *)
Valid(cs) == SelectSeq(cs, LAMBDA x : ~x.undef)
Fixed(prog) == {a \in DOMAIN prog : Len(Valid(prog[a])) = 1}
Contenders(prog, Keys(_), k) ==
    FoldSet(LAMBDA a, s : s + Cardinality({i \in DOMAIN prog[a] : ~prog[a][i].undef /\ k \in Keys(prog[a][i])}), 0,
            DOMAIN prog \ Fixed(prog))
\* in millionths: the mean over the keys of the candidate (given its keys, and those the originals are counted by)
Share(orig, prog, Keys(_), OrigKeys(_), k) ==
    LET n == Contenders(prog, Keys, k)
        m == InOriginal(orig, LAMBDA o : k \in OrigKeys(o)) - Cardinality({a \in Fixed(prog) : k \in Keys(Valid(prog[a])[1])})
    IN IF n = 0 \/ InOriginal(orig, LAMBDA o : k \in OrigKeys(o)) = 0 THEN 0 ELSE (m * 1000000) \div n
=============================================================================
