------------------------------ MODULE Forward ------------------------------
(***************************************************************************)
(* P11, P12: the solution of a recovered program, i.e. which candidate of  *)
(* each address is the original.                                           *)
(*                                                                         *)
(* A candidate is a record with                                            *)
(*   cond, op   condition and operation,                                   *)
(*   regs       registers used,      stor  registers and memory used,      *)
(*   undef      not an instruction,  word  its encoding.                   *)
(* A program is a sequence of addresses, each a sequence of candidates,    *)
(* and orig is the sequence of the originals.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* How many of the originals have something
CountOf(orig, Has(_)) == Cardinality({i \in DOMAIN orig : ~orig[i].undef /\ Has(orig[i])})
InitialCounts(orig) ==
    [cond |-> [k \in {orig[i].cond : i \in {i \in DOMAIN orig : ~orig[i].undef}} |-> CountOf(orig, LAMBDA o : o.cond = k)],
     op   |-> [k \in {orig[i].op : i \in {i \in DOMAIN orig : ~orig[i].undef}} |-> CountOf(orig, LAMBDA o : o.op = k)],
     stor |-> [k \in UNION {orig[i].stor : i \in {i \in DOMAIN orig : ~orig[i].undef}} |->
                  CountOf(orig, LAMBDA o : k \in o.stor)]]

\* Whether a candidate could still be an instruction of the program
Fits(counts, x) ==
    /\ ~x.undef
    /\ x.op \in DOMAIN counts.op /\ counts.op[x.op] > 0
    /\ x.cond \in DOMAIN counts.cond /\ counts.cond[x.cond] > 0
    /\ \A r \in x.regs : r \in DOMAIN counts.stor /\ counts.stor[r] > 0

\* The instruction has been placed: there is one less of each of its things
Placed(counts, x) ==
    IF x.undef THEN counts
    ELSE [cond |-> [k \in DOMAIN counts.cond |-> counts.cond[k] - (IF k = x.cond THEN 1 ELSE 0)],
          op   |-> [k \in DOMAIN counts.op |-> counts.op[k] - (IF k = x.op THEN 1 ELSE 0)],
          stor |-> [k \in DOMAIN counts.stor |-> counts.stor[k] - (IF k \in x.stor THEN 1 ELSE 0)]]

IndexOf(cands, o) == CHOOSE i \in DOMAIN cands : cands[i].word = o.word /\ \A j \in 1..(i - 1) : cands[j].word # o.word
HasOriginal(cands, o) == \E i \in DOMAIN cands : cands[i].word = o.word

Pick(s, Test(_)) == SelectSeq(s, Test)
\* Candidates that do not fit are dropped, but an address is never left without any.
\* keepLast: the last candidate is left alone even if others remain (it is what the code does)
Filter(counts, cands, keepLast) ==
    IF cands = <<>> THEN cands
    ELSE LET ok(x) == Fits(counts, x)
             n == Len(cands)
             front == SelectSeq(SubSeq(cands, 1, n - 1), ok)
         IN IF keepLast \/ front = <<>> \/ Fits(counts, cands[n]) THEN Append(front, cands[n]) ELSE front

\* Addresses by increasing number of candidates; those with as many stay in the order they were
StableByCount(addrs, program) ==
    LET Key(a) == Len(program[a])
        Ins[i \in 0..Len(addrs)] ==
            IF i = 0 THEN <<>>
            ELSE LET s == Ins[i - 1]
                     x == addrs[i]
                     before == SelectSeq(s, LAMBDA a : Key(a) <= Key(x))
                     after == SelectSeq(s, LAMBDA a : Key(a) > Key(x))
                 IN before \o <<x>> \o after
    IN Ins[Len(addrs)]

(***************************************************************************)
(* One step of the enumeration.  st: [addrs, program, counts, factors]     *)
(***************************************************************************)
StepEnum(st, orig, keepLast) ==
    LET a == Head(st.addrs)
        cands == st.program[a]
        rest == Tail(st.addrs)
    IN
    IF cands = <<>> \/ orig[a].undef
    THEN [st EXCEPT !.addrs = rest]
    ELSE LET i == IF Len(cands) > 1 THEN IndexOf(cands, orig[a]) ELSE 1
             counts == Placed(st.counts, cands[i])
             program == [b \in DOMAIN st.program |->
                            IF \E k \in DOMAIN rest : rest[k] = b THEN Filter(counts, st.program[b], keepLast)
                            ELSE st.program[b]]
         IN [addrs |-> StableByCount(rest, program), program |-> program, counts |-> counts,
             factors |-> IF Len(cands) > 1 THEN Append(st.factors, i) ELSE st.factors]
InitEnum(program, orig) ==
    [addrs |-> StableByCount([i \in DOMAIN program |-> i], program), program |-> program,
     counts |-> InitialCounts(orig), factors |-> <<>>]
RECURSIVE RunEnum(_, _, _)
RunEnum(st, orig, keepLast) == IF st.addrs = <<>> THEN st ELSE RunEnum(StepEnum(st, orig, keepLast), orig, keepLast)

(***************************************************************************)
(* The compact form: for each address in that order, nothing dropped, the  *)
(* index of the original in as many bits as its candidates need.           *)
(***************************************************************************)
RECURSIVE Width(_)
Width(n) == IF n <= 1 THEN 0 ELSE 1 + Width((n + 1) \div 2)          \* ceiling of log2(n)
Coded(program, orig) ==
    SelectSeq(StableByCount([i \in DOMAIN program |-> i], program), LAMBDA a : Len(program[a]) > 1 /\ ~orig[a].undef)
=============================================================================
