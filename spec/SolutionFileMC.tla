--------------------------- MODULE SolutionFileMC ---------------------------
(***************************************************************************)
(* Writing a solution field by field, being cut at any of them, and        *)
(* reading whatever there is.  A file that was cut is never read as a      *)
(* smaller solution.                                                       *)
(***************************************************************************)
EXTENDS SolutionFile, TLC
CONSTANTS MAXADDR, MAXCAND, ENC

VARIABLES program, orig,       \* what is to be stored
          file,                \* fields written so far
          at,                  \* next field to write, as <<address, field>>
          state,               \* writing | refused | complete | cut
          r                    \* the reader: fields read, result so far, status
vars == <<program, orig, file, at, state, r>>

Cands == UNION {[1..n -> ENC] : n \in 0..MAXCAND}
Programs == UNION {[1..n -> Cands] : n \in 0..MAXADDR}
Magic == "magic"

Init == /\ program \in Programs /\ orig \in [DOMAIN program -> ENC]
        /\ file = <<>> /\ at = <<0, 0>> /\ state = "writing"
        /\ r = [pos |-> 1, left |-> -1, cands |-> <<>>, need |-> -1, got |-> <<>>, st |-> "idle"]

\* The fields are: the magic word, the number of addresses, and for each the address, how many
\* candidates, and the candidates
Put(f) == file' = Append(file, f)
WriteHeader == /\ state = "writing" /\ at = <<0, 0>> /\ file = <<>> /\ Put(Magic)
               /\ UNCHANGED <<program, orig, at, state, r>>
WriteCount == /\ state = "writing" /\ at = <<0, 0>> /\ file # <<>> /\ Put(Len(program))
              /\ at' = <<1, 0>> /\ UNCHANGED <<program, orig, state, r>>
WriteAddress == /\ state = "writing" /\ at[1] \in DOMAIN program /\ at[2] = 0
                /\ Put(at[1]) /\ at' = <<at[1], 1>> /\ UNCHANGED <<program, orig, state, r>>
Refuse == /\ state = "writing" /\ at[1] \in DOMAIN program /\ at[2] = 1
          /\ PlaceOf(program[at[1]], orig[at[1]]) = 0
          /\ state' = "refused" /\ UNCHANGED <<program, orig, file, at, r>>
WriteHowMany == /\ state = "writing" /\ at[1] \in DOMAIN program /\ at[2] = 1
                /\ LET p == PlaceOf(program[at[1]], orig[at[1]]) IN
                   p > 0 /\ Put(p) /\ at' = <<at[1], 2>> /\ UNCHANGED <<program, orig, state, r>>
WriteCandidate == /\ state = "writing" /\ at[1] \in DOMAIN program /\ at[2] >= 2
                  /\ LET k == at[2] - 1
                         p == PlaceOf(program[at[1]], orig[at[1]])
                     IN  /\ Put(program[at[1]][k])
                         /\ at' = IF k = p THEN <<at[1] + 1, 0>> ELSE <<at[1], at[2] + 1>>
                  /\ UNCHANGED <<program, orig, state, r>>
Close == /\ state = "writing" /\ at[1] = Len(program) + 1 /\ at[1] > 0 /\ Len(file) >= 2
         /\ state' = "complete" /\ UNCHANGED <<program, orig, file, at, r>>
Crash == /\ state = "writing" /\ ~(at[1] = Len(program) + 1 /\ Len(file) >= 2)
         /\ state' = "cut" /\ UNCHANGED <<program, orig, file, at, r>>

\* The reader, one field at a time
Field == file[r.pos]
CanRead == r.pos <= Len(file)
StartReading == /\ state # "writing" /\ r.st = "idle"
                /\ r' = [r EXCEPT !.st = "magic"] /\ UNCHANGED <<program, orig, file, at, state>>
ReadField ==
    /\ r.st \in {"magic", "count", "address", "howmany", "candidate"}
    /\ UNCHANGED <<program, orig, file, at, state>>
    /\ IF r.st = "address" /\ r.left = 0 THEN r' = [r EXCEPT !.st = "ok"]
       ELSE IF ~CanRead THEN r' = [r EXCEPT !.st = "failed"]
       ELSE CASE r.st = "magic" -> r' = [r EXCEPT !.pos = @ + 1, !.st = IF Field = Magic THEN "count" ELSE "failed"]
              [] r.st = "count" -> r' = [r EXCEPT !.pos = @ + 1, !.left = Field, !.st = "address"]
              [] r.st = "address" -> r' = [r EXCEPT !.pos = @ + 1, !.st = "howmany"]
              [] r.st = "howmany" -> r' = [r EXCEPT !.pos = @ + 1, !.need = Field, !.cands = <<>>, !.st = "candidate"]
              [] r.st = "candidate" ->
                    LET cs == Append(r.cands, Field) IN
                    IF Len(cs) = r.need
                    THEN r' = [r EXCEPT !.pos = @ + 1, !.cands = <<>>, !.got = Append(@, cs), !.left = @ - 1, !.st = "address"]
                    ELSE r' = [r EXCEPT !.pos = @ + 1, !.cands = cs]
Next == WriteHeader \/ WriteCount \/ WriteAddress \/ Refuse \/ WriteHowMany \/ WriteCandidate \/ Close \/ Crash
        \/ StartReading \/ ReadField
Spec == Init /\ [][Next]_vars

RoundTrip == r.st = "ok" => /\ state = "complete"
                            /\ r.got = [i \in DOMAIN program |-> Kept(program[i], orig[i])]
NeverRefusesAComplete == state = "complete" => r.st # "failed"
RefusedOnlyIfNotStorable == /\ state = "refused" => ~Storable(program, orig)
                            /\ state = "complete" => Storable(program, orig)
=============================================================================
