------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* What a disassembly says, and machines that read one line by line.       *)
(*                                                                         *)
(* A line is a record [t, a, e, n]: its kind, an address, an encoding and  *)
(* a name.  Kinds of lines:                                                *)
(*   "functions" "code" "data"  the header of a section                    *)
(*   "fn"      the name of the function at an address                      *)
(*   "inst"    an instruction                                              *)
(*   "bad"     a line of code without encoding                             *)
(*   "blank"                                                               *)
(*   "head"    the header of a function, in a listing                      *)
(*   "note"    any other line of a listing                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Before(lines, i, kinds) == {j \in 1..i : lines[j].t \in kinds}
Last(S) == CHOOSE j \in S : \A k \in S : k <= j
InOrder(S) == [k \in 1..Cardinality(S) |-> CHOOSE j \in S : Cardinality({i \in S : i <= j}) = k]

(* Files with sections.  The section of line i, *)
Section(lines, i) ==
    LET S == Before(lines, i, {"functions", "code", "data"})
    IN IF S = {} THEN "none" ELSE lines[Last(S)].t
(* the instructions, *)
ElfInsts(lines) == {i \in DOMAIN lines : lines[i].t = "inst" /\ Section(lines, i) = "code"}
(* where functions begin, with their possible names *)
Named(lines) == {i \in DOMAIN lines : lines[i].t = "fn" /\ Section(lines, i) = "functions"}
Starts(lines) == {lines[i].a : i \in Named(lines)}
Names(lines, a) == {lines[i].n : i \in {j \in Named(lines) : lines[j].a = a}}
(* and the instruction the function of instruction i begins with, 0 if none *)
Begins(lines, i) ==
    LET S == {j \in ElfInsts(lines) : j <= i /\ lines[j].a \in Starts(lines)}
    IN IF S = {} THEN 0 ELSE Last(S)
(* the instructions of the function at address a *)
ElfBody(lines, a) == {i \in ElfInsts(lines) : Begins(lines, i) # 0 /\ lines[Begins(lines, i)].a = a}

(* Listings.  All the instructions, *)
Insts(lines) == {i \in DOMAIN lines : lines[i].t = "inst"}
(* and those of the k-th function; the one numbered 0 has no header *)
Heads(lines) == {i \in DOMAIN lines : lines[i].t = "head"}
ListBody(lines, k) == {i \in Insts(lines) : Cardinality({j \in Heads(lines) : j < i}) = k}

(***************************************************************************)
(* The readers as coded, a line at a time                                  *)
(***************************************************************************)
ElfInit == [sec |-> "none", table |-> {}, names |-> {}, cur |-> -1, body |-> <<>>, out |-> <<>>]
ElfStep(s, line) ==
    CASE line.t \in {"functions", "code", "data"} -> [s EXCEPT !.sec = line.t]
      [] line.t = "fn" /\ s.sec = "functions" -> [s EXCEPT !.table = @ \union {line.a}, !.names = @ \union {<<line.a, line.n>>}]
      [] line.t = "inst" /\ s.sec = "code" ->
            LET now == IF line.a \in s.table THEN line.a ELSE s.cur
            IN [s EXCEPT !.cur = now, !.out = @ \o <<<<line.a, line.e>>>>,
                         !.body = IF now = -1 THEN @ ELSE @ \o <<<<now, line.a, line.e>>>>]
      [] OTHER -> s
ListInit == [heads |-> 0, names |-> <<>>, body |-> <<>>, out |-> <<>>]
ListStep(s, line) ==
    CASE line.t = "head" -> [s EXCEPT !.heads = @ + 1, !.names = @ \o <<line.n>>]
      [] line.t = "inst" -> [s EXCEPT !.body = @ \o <<<<s.heads, line.a, line.e>>>>, !.out = @ \o <<<<line.a, line.e>>>>]
      [] OTHER -> s
(* The instructions a machine has for a function: pairs of address and encoding *)
BodyOf(s, f) == LET b == SelectSeq(s.body, LAMBDA p : p[1] = f) IN [k \in DOMAIN b |-> <<b[k][2], b[k][3]>>]

(* What is told of a function out of its instructions *)
Contiguous(b) == \A k \in 1..(Len(b) - 1) : b[k + 1][1] = b[k][1] + 4
Start(b) == IF b = <<>> THEN 0 ELSE b[1][1]
Final(b) == IF b = <<>> THEN 0 ELSE b[Len(b)][1]       \* if contiguous
=============================================================================
