------------------------------ MODULE RulesMC ------------------------------
(***************************************************************************)
(* The rule of the flow at an address, run again and again while the       *)
(* candidates around are discarded, in several passes.                     *)
(***************************************************************************)
EXTENDS Rules
CONSTANTS NB, NC, PASSES
VARIABLES before, here, after, pass, scores, done, updated, cond, at, n
vars == <<before, here, after, pass, scores, done, updated, cond, at, n>>

Conds == {0, ALWAYS}
Cand == {c \in [undef : BOOLEAN, cond : Conds, flags : BOOLEAN, branch : BOOLEAN, to : {4}] :
            (c.undef => (c.cond = ALWAYS /\ ~c.flags)) /\ ~c.branch}
Lists(S, m) == UNION {[1..j -> S] : j \in 0..m}
Here == {c \in [undef : {FALSE}, cond : Conds, flags : {FALSE}, branch : BOOLEAN, to : {4, 100}] : (c.branch \/ c.to = 4) /\ (c.to = 100 => c.cond = 0)}
ADDRS == {0, 4, 8}
Zero == [k \in {"n", "f", "m"} |-> 0]
None == [k \in Conds |-> 0]

Init == /\ before \in Lists(Cand, NB) /\ after \in Lists(Cand, NB) /\ here \in [1..NC -> Here]
        /\ pass = 1 /\ scores = [p \in 1..PASSES |-> <<>>] /\ done = FALSE /\ updated = FALSE
        /\ cond = [prev |-> None, next |-> None] /\ at = <<"prev", 1>> /\ n = Zero

(* the tallies the rule keeps, a candidate at a time *)
Tally == /\ ~done /\ at[1] # "end"
         /\ LET side == IF at[1] = "prev" THEN before ELSE after IN
            IF at[2] > Len(side)
            THEN /\ at' = IF at[1] = "prev" THEN <<"next", 1>> ELSE <<"end", 1>>
                 /\ UNCHANGED <<cond, n>>
            ELSE LET y == side[at[2]] IN
                 /\ at' = <<at[1], at[2] + 1>>
                 /\ cond' = IF y.undef THEN cond ELSE [cond EXCEPT ![at[1]][y.cond] = @ + 1]
                 /\ n' = IF y.undef THEN n
                         ELSE IF at[1] = "prev" THEN [n EXCEPT !["n"] = @ + 1, !["f"] = @ + (IF y.flags THEN 1 ELSE 0)]
                         ELSE [n EXCEPT !["m"] = @ + 1]
         /\ UNCHANGED <<before, here, after, pass, scores, done, updated>>
New == [i \in DOMAIN here |->
          IF here[i].undef THEN <<0, 1>>
          ELSE Ratio(here[i].cond, n["n"], cond.prev[here[i].cond], n["f"], n["m"], cond.next[here[i].cond],
                     here[i].branch /\ here[i].to \in ADDRS)]
Score == /\ ~done /\ at[1] = "end" /\ done' = TRUE
         /\ scores' = [scores EXCEPT ![pass] = Put(@, New)]
         /\ updated' = Updates(scores[pass], New)
         /\ UNCHANGED <<before, here, after, pass, cond, at, n>>
Restart == /\ done' = FALSE /\ cond' = [prev |-> None, next |-> None] /\ at' = <<"prev", 1>> /\ n' = Zero
Again == done /\ updated /\ Restart /\ UNCHANGED <<before, here, after, pass, scores, updated>>
Discard == /\ done
           /\ \/ \E i \in Defined(here) : here' = [here EXCEPT ![i].undef = TRUE] /\ UNCHANGED <<before, after>>
              \/ \E i \in Defined(before) : before' = [before EXCEPT ![i].undef = TRUE] /\ UNCHANGED <<here, after>>
              \/ \E i \in Defined(after) : after' = [after EXCEPT ![i].undef = TRUE] /\ UNCHANGED <<here, before>>
           /\ Restart /\ UNCHANGED <<pass, scores, updated>>
\* a candidate without scores of its own: as if it had not been there
Forget == /\ done /\ \E i \in DOMAIN here : i \in DOMAIN scores[pass] /\ scores' = [scores EXCEPT ![pass] = [j \in DOMAIN @ \ {i} |-> @[j]]]
          /\ Restart /\ UNCHANGED <<before, here, after, pass, updated>>
NextPass == done /\ pass < PASSES /\ pass' = pass + 1 /\ Restart /\ UNCHANGED <<before, here, after, scores, updated>>
Next == Tally \/ Score \/ Again \/ Discard \/ Forget \/ NextPass
Spec == Init /\ [][Next]_vars

\* the tallies are the shares of the definition
AsDefined == done => \A i \in DOMAIN here : scores[pass][i] = FlowScore(here[i], before, after, ADDRS)
\* no score is above that of being among equals, nor below that of following the flags
Bounded == \A p \in 1..PASSES : \A i \in DOMAIN scores[p] :
              LET s == scores[p][i] IN s[1] <= 1401000 * s[2] /\ s[1] >= -600000 * s[2]
\* being surrounded by equals is best: nothing else at the address has more, save for a known jump
AmongEquals == done => \A i, j \in Defined(here) :
    (/\ Defined(before) # {} /\ Defined(after) # {}
     /\ \A y \in Defined(before) : before[y].cond = here[i].cond /\ ~before[y].flags
     /\ \A y \in Defined(after) : after[y].cond = here[i].cond) => scores[pass][i][1] + 1000 * scores[pass][i][2] >= scores[pass][j][1]
\* after a change of the flags the conditional is preferred
AfterFlags == done => \A i, j \in Defined(here) :
    (/\ Defined(before) # {} /\ Defined(after) = {} /\ here[i].cond # ALWAYS /\ here[j].cond = ALWAYS /\ (here[i].branch = here[j].branch) /\ here[i].to = here[j].to
     /\ (\A y \in Defined(before) : before[y].flags)
     /\ 2 * Cardinality({y \in Defined(before) : before[y].cond = ALWAYS}) <= Cardinality(Defined(before))) => scores[pass][i][1] > scores[pass][j][1]
\* and it counts as a change that there is a score again
Answers == [][\A i \in DOMAIN here : (~done /\ done' /\ i \notin DOMAIN scores[pass]) => updated']_vars
\* what a pass scored is not changed by the ones after it
PassesKeepTheirs == [][\A p \in 1..PASSES : p # pass => scores'[p] = scores[p]]_vars
\* scoring again what did not change updates nothing
Settles == [][\A i \in DOMAIN here : (~done /\ done' /\ i \in DOMAIN scores[pass] /\ scores[pass] = New) => ~updated']_vars
=============================================================================
