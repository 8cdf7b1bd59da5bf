--------------------------- MODULE SolutionTrace ---------------------------
(***************************************************************************)
(* P14, P15: files the code wrote and read.  In a record each program is   *)
(* given by its addresses, in order, and their candidates.                 *)
(***************************************************************************)
EXTENDS VFTrace, SolutionFile
VARIABLES c
X == Cases[c]

(* P14 *)
JudgeSolution ==
    LET ok == Storable(X.cands, X.orig) IN
    /\ Req(X, "RefusesAProgramWithoutItsOriginal", X.refused = ~ok)
    /\ ~X.refused => Req(X, "IsReadBack", ~X.failed)
    /\ (~X.refused /\ ~X.failed /\ ok) =>
          /\ Req(X, "SameAddresses", X.addrs = X.readAddrs /\ X.addrs = X.readOrigAddrs)
          /\ Req(X, "CandidatesUpToTheOriginal",
                 X.read = [i \in DOMAIN X.cands |-> Kept(X.cands[i], X.orig[i])])
          /\ Req(X, "Originals", X.readOrig = [i \in DOMAIN X.cands |-> <<X.orig[i]>>])
          /\ Req(X, "EachAtItsAddress", X.where)
    \* whatever was left of a file that was not written to the end cannot be read
    /\ Req(X, "RefusedFileIsNotASolution", X.refused => X.failed)
    /\ Req(X, "CutFileIsNotASolution", \A i \in DOMAIN X.cutRead : ~X.cutRead[i])
    /\ Req(X, "OtherFileIsNotASolution", \A i \in DOMAIN X.otherRead : ~X.otherRead[i])

(* P15 *)
JudgeProgram ==
    /\ Req(X, "SavingWithoutAPathRefused", X.noPath)
    /\ Req(X, "IsReadBack", ~X.failed)
    /\ ~X.failed =>
        /\ Req(X, "SameAddresses", X.addrs = X.readAddrs)
        /\ Req(X, "SameCandidatesInTheSameOrder", X.cands = X.read)
        /\ Req(X, "EachAtItsAddress", X.where)
    \* reading is of the file as it is now, whatever was read before and done with it since
    /\ Req(X, "ReadAgainIsWhatIsSavedNow",
           \A i \in DOMAIN X.again :
             LET a == X.again[i] IN a.ok /\ a.addrs = a.readAddrs /\ a.cands = a.read)
    /\ Req(X, "CutFileIsNotAProgram", \A i \in DOMAIN X.cutRead : ~X.cutRead[i])

Step == /\ c <= Len(Cases)
        /\ IF X.j = "solution" THEN JudgeSolution ELSE JudgeProgram
        /\ c' = c + 1
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
