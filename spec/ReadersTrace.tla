---------------------------- MODULE ReadersTrace ----------------------------
(***************************************************************************)
(* P17: files, and what the real readers told of them.                     *)
(***************************************************************************)
EXTENDS VFTrace, Readers, SequencesExt
VARIABLES c
X == Cases[c]

Facts(f, b) ==
    /\ Req(X, "FunctionHasItsInstructions", f.body = b)
    /\ Req(X, "FunctionStart", f.start = Start(b))
    /\ Req(X, "FunctionEnd", Contiguous(b) => f.final = Final(b))
    /\ Req(X, "FunctionLength", f.len = 4 * Len(b))

JudgeElf(s) ==
    /\ Req(X, "OneFunctionPerAddress", Len(X.fns) = Cardinality(s.table))
    \* a function with instructions is known by them, the others by their names
    /\ \A a \in s.table :
         LET b == BodyOf(s, a)
             fs == IF b = <<>> THEN {f \in ToSet(X.fns) : f.body = <<>> /\ <<a, f.n>> \in s.names}
                   ELSE {f \in ToSet(X.fns) : f.body # <<>> /\ f.body[1][1] = a}
         IN /\ Req(X, "FunctionIsThere", fs # {})
            /\ Req(X, "FunctionHasOneOfItsNames", \A f \in fs : <<a, f.n>> \in s.names)
            /\ \A f \in fs : Facts(f, b)

JudgeList(s) ==
    /\ Req(X, "AFunctionPerHeader", Len(X.fns) = s.heads + 1)
    /\ Len(X.fns) = s.heads + 1 =>
        \A k \in 1..Len(X.fns) :
            /\ Facts(X.fns[k], BodyOf(s, k - 1))
            /\ Req(X, "FunctionNamedByItsHeader", k = 1 \/ X.fns[k].n = s.names[k - 1])
    /\ Req(X, "OtherInstructionSetsRefused", X.refused)

(* The program made out of the functions, and what is told of their ranges *)
Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k][1] < s[k + 1][1]
JudgeProgram(s, keys) ==
    LET bodies == {BodyOf(s, k) : k \in keys} \ {<<>>} IN
    /\ Req(X, "ProgramHasTheInstructionsOfTheFunctions",
           ToSet(X.program) = {<<s.body[i][2], s.body[i][3]>> : i \in DOMAIN s.body} /\ Len(X.program) = Len(s.body))
    /\ Req(X, "ProgramIsInOrder", Increasing(X.program))
    /\ Req(X, "DictionaryIsTheProgram", X.asDict = X.program /\ X.asList = X.program)
    /\ \A b \in bodies : Contiguous(b) => Req(X, "RangeOfAFunction", <<Start(b), Start(b), Final(b)>> \in ToSet(X.ranges))
    \* nothing else but what has no instructions, or no end
    /\ Req(X, "OnlyRangesOfFunctions", \A r \in ToSet(X.ranges) :
           r = <<0, 0, 0>> \/ \E b \in bodies : r[1] = Start(b) /\ r[2] = r[1] /\ (Contiguous(b) => r[3] = Final(b)))

JudgeRead(s) ==
    /\ Req(X, "Instructions", X.out = s.out)
    /\ Req(X, "AllWaysOfReadingAgree", X.agree)
    /\ IF X.j = "elf" THEN JudgeElf(s) ELSE JudgeList(s)
    /\ JudgeProgram(s, IF X.j = "elf" THEN s.table ELSE 0..s.heads)

Judge ==
    /\ Req(X, "IsRead", ~X.raised)
    /\ ~X.raised => JudgeRead(IF X.j = "elf" THEN FoldLeft(ElfStep, ElfInit, X.lines) ELSE FoldLeft(ListStep, ListInit, X.lines))

Step == /\ c <= Len(Cases)
        /\ Judge
        /\ c' = c + 1
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
