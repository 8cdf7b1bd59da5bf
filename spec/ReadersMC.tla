----------------------------- MODULE ReadersMC -----------------------------
(***************************************************************************)
(* All small files, written a line at a time and read by both machines.    *)
(* Addresses are not repeated among the instructions of a file, and the    *)
(* table of functions comes before the code.                               *)
(***************************************************************************)
EXTENDS Readers, TLC
CONSTANTS MAXL, ADDR
VARIABLES lines, elf, list
vars == <<lines, elf, list>>
L(t, a) == [t |-> t, a |-> a, e |-> 100 + a, n |-> "x"]
Init == lines = <<>> /\ elf = ElfInit /\ list = ListInit
Add(line) == /\ Len(lines) < MAXL
             /\ lines' = lines \o <<line>>
             /\ elf' = ElfStep(elf, line)
             /\ list' = ListStep(list, line)
Code == \E i \in DOMAIN lines : lines[i].t = "code"
SectionHeader == \E t \in {"functions", "code", "data"} : (t = "functions" => ~Code) /\ Add(L(t, 0))
Function == elf.sec = "functions" /\ \E a \in ADDR : Add(L("fn", a))
Instruction == elf.sec # "functions" /\ \E a \in ADDR \ {lines[i].a : i \in Insts(lines)} : Add(L("inst", a))
Noise == \E t \in {"bad", "blank", "note"} : Add(L(t, 0))
Header == Add(L("head", 0))
Spec == Init /\ [][SectionHeader \/ Function \/ Instruction \/ Noise \/ Header]_vars

Pairs(S) == LET o == InOrder(S) IN [k \in 1..Cardinality(S) |-> <<lines[o[k]].a, lines[o[k]].e>>]
ElfRight ==
    /\ elf.out = Pairs(ElfInsts(lines))
    /\ elf.table = Starts(lines)
    /\ \A a \in ADDR : BodyOf(elf, a) = Pairs(ElfBody(lines, a))
ListRight ==
    /\ list.out = Pairs(Insts(lines))
    /\ \A k \in 0..list.heads : BodyOf(list, k) = Pairs(ListBody(lines, k))
(* No instruction is in two functions; once one has begun, none is left out *)
ElfPartition == \A i \in ElfInsts(lines) :
    Cardinality({a \in ADDR : i \in ElfBody(lines, a)}) = (IF \E j \in ElfInsts(lines) : j <= i /\ lines[j].a \in Starts(lines) THEN 1 ELSE 0)
ListPartition == \A i \in Insts(lines) : Cardinality({k \in 0..list.heads : i \in ListBody(lines, k)}) = 1
(* A function begins where the table says *)
BeginsThere == \A a \in ADDR : ElfBody(lines, a) # {} => Start(Pairs(ElfBody(lines, a))) = a
=============================================================================
