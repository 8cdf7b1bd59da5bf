----------------------------- MODULE ForwardMC -----------------------------
(***************************************************************************)
(* The enumeration for every small program: any candidates, any originals  *)
(* among them.  The original is never dropped, nothing is left empty, and  *)
(* the compact form tells the originals.                                   *)
(***************************************************************************)
EXTENDS Forward, TLC
CONSTANTS NADDR, MAXCAND, NINST

\* The instructions there are: different in condition, operation and registers
Inst == << [cond |-> 1, op |-> 1, regs |-> {}, stor |-> {18}, undef |-> FALSE, word |-> 1],
           [cond |-> 2, op |-> 1, regs |-> {1}, stor |-> {1}, undef |-> FALSE, word |-> 2],
           [cond |-> 1, op |-> 2, regs |-> {1, 2}, stor |-> {1, 2, 16}, undef |-> FALSE, word |-> 3],
           [cond |-> 0, op |-> 0, regs |-> {}, stor |-> {}, undef |-> TRUE, word |-> 4],
           \* two words may be the same instruction to all but their bits
           [cond |-> 1, op |-> 1, regs |-> {}, stor |-> {18}, undef |-> FALSE, word |-> 5] >>
Cands == {s \in UNION {[1..n -> 1..NINST] : n \in 0..MAXCAND} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

VARIABLES program, orig, st, keepLast, lastCount
vars == <<program, orig, st, keepLast, lastCount>>
Init == \E p \in [1..NADDR -> Cands] : \E o \in [1..NADDR -> 1..NINST] :
          /\ \A a \in 1..NADDR : p[a] # <<>> => \E i \in DOMAIN p[a] : p[a][i] = o[a]
          /\ program = [a \in 1..NADDR |-> [i \in DOMAIN p[a] |-> Inst[p[a][i]]]]
          /\ orig = [a \in 1..NADDR |-> Inst[o[a]]]
          /\ keepLast \in BOOLEAN
          /\ st = InitEnum(program, orig) /\ lastCount = 0
Step == /\ st.addrs # <<>> /\ st' = StepEnum(st, orig, keepLast)
        /\ lastCount' = Len(st.program[Head(st.addrs)])
        /\ UNCHANGED <<program, orig, keepLast>>
Spec == Init /\ [][Step]_vars

OriginalKept == \A a \in DOMAIN program : (program[a] # <<>> /\ ~orig[a].undef) => HasOriginal(st.program[a], orig[a])
NeverEmptied == \A a \in DOMAIN program : program[a] # <<>> => st.program[a] # <<>>
NothingInvented == \A a \in DOMAIN program : \A i \in DOMAIN st.program[a] : \E j \in DOMAIN program[a] :
                      st.program[a][i] = program[a][j]
\* the address being placed is one of those with fewest candidates
FewestFirst == st.addrs # <<>> => \A k \in DOMAIN st.addrs : Len(st.program[Head(st.addrs)]) <= Len(st.program[st.addrs[k]])
CountsNeverNegative == /\ \A k \in DOMAIN st.counts.cond : st.counts.cond[k] >= 0
                       /\ \A k \in DOMAIN st.counts.op : st.counts.op[k] >= 0
                       /\ \A k \in DOMAIN st.counts.stor : st.counts.stor[k] >= 0
WidthsSuffice == \A a \in DOMAIN program : Len(program[a]) <= 2^Width(Len(program[a]))
                    /\ (Len(program[a]) > 1 => Len(program[a]) > 2^(Width(Len(program[a])) - 1))
=============================================================================
