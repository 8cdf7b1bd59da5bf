---------------------------- MODULE ForwardTrace ----------------------------
EXTENDS VFTrace, Words, Forward, Quality
VARIABLES c
X == Cases[c]

Rec(x) == [cond |-> x.cond, op |-> x.op, regs |-> ToSet(x.regs), stor |-> ToSet(x.stor), undef |-> x.undef, word |-> x.word]
P == [a \in DOMAIN X.program |-> [i \in DOMAIN X.program[a] |-> Rec(X.program[a][i])]]
O == [a \in DOMAIN X.orig |-> Rec(X.orig[a])]

SizeOfFactors(fs) == FoldSet(LAMBDA i, s : s + Log2[fs[i]], 0, DOMAIN fs)
Abs(x) == IF x < 0 THEN -x ELSE x
\* Which candidates are left is told by their ids
Ids(prog, given) == [a \in DOMAIN prog |-> given[a]]

JudgeEnumeration ==
    LET run(k) == RunEnum(InitEnum(P, O), O, k)
        Agrees(s) == /\ \A m \in DOMAIN X.mods : X.numbers[m] = ProductMod(s.factors, X.mods[m])
                     /\ (\A i \in DOMAIN s.factors : s.factors[i] <= 64) => Abs(X.size - SizeOfFactors(s.factors)) <= Len(s.factors) + 2
                     /\ \A a \in DOMAIN P : [i \in DOMAIN s.program[a] |-> s.program[a][i].word] = X.left[a]
    IN
    /\ Req(X, "OriginalKept", \A a \in DOMAIN P : (P[a] # <<>> /\ ~O[a].undef) =>
                                  \E i \in DOMAIN X.left[a] : X.left[a][i] = O[a].word)
    /\ Req(X, "NeverEmptied", \A a \in DOMAIN P : P[a] # <<>> => X.left[a] # <<>>)
    /\ Req(X, "NumberOfTheSolution", Agrees(run(TRUE)) \/ Agrees(run(FALSE)))

\* Bit b of the stream
StreamBit(b) == Bit(X.words[(b \div 32) + 1], b % 32)
RECURSIVE Decode(_, _)
Number(b, w) == FoldSet(LAMBDA i, s : s + StreamBit(b + i) * 2^i, 0, 0..(w - 1))
Decode(addrs, b) ==
    IF addrs = <<>> THEN <<>>
    ELSE LET w == Width(Len(P[Head(addrs)])) IN <<Number(b, w) + 1>> \o Decode(Tail(addrs), b + w)
JudgeStream ==
    LET addrs == Coded(P, O)
        size == FoldSet(LAMBDA k, s : s + Width(Len(P[addrs[k]])), 0, DOMAIN addrs)
    IN
    /\ Req(X, "SizeIsTheBitsOfTheIndexes", X.size = size)
    /\ Req(X, "StreamHoldsThem", Len(X.words) * 32 >= size)
    /\ Len(X.words) * 32 >= size =>
        Req(X, "IndexesAreThoseOfTheOriginals",
            Decode(addrs, 0) = [k \in DOMAIN addrs |-> IndexOf(P[addrs[k]], O[addrs[k]])])
    /\ Req(X, "NothingIsDropped", \A a \in DOMAIN P : X.left[a] = [i \in DOMAIN P[a] |-> P[a][i].word])

Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ IF X.j = "enumeration" THEN JudgeEnumeration ELSE JudgeStream
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
