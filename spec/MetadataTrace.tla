--------------------------- MODULE MetadataTrace ---------------------------
EXTENDS VFTrace, Metadata
VARIABLES c
X == Cases[c]

Below(a, b) == IF a < 0 THEN (b < 0 /\ a < b) ELSE (b < 0 \/ a < b)
Rec(x) == [undef |-> x.undef, e |-> x.e, cond |-> x.cond, op |-> x.op, used |-> ToSet(x.used), read |-> ToSet(x.read),
           written |-> ToSet(x.written)]
Prog == [i \in DOMAIN X.prog |-> Rec(X.prog[i])]
\* A table recorded as a sequence of <<key, value>>
Table(t) == {<<t[i][1], t[i][2]>> : i \in DOMAIN t}
Counting(def, Keys(_)) ==
    {<<k, Having(def, LAMBDA x : k \in Keys(x))>> : k \in UNION {Keys(def[i]) : i \in DOMAIN def}}
Abs(x) == IF x < 0 THEN -x ELSE x

JudgeCollector ==
    LET def == Defined(Prog)
        \* X.storages: those whose distances are kept (the registers and memory)
        read == {s \in 0..(X.storages - 1) : Pairs(def, s) # {}}
    IN
    /\ Req(X, "Conditions", Table(X.conds) = Counting(def, LAMBDA x : {x.cond}))
    /\ Req(X, "Operations", Table(X.ops) = Counting(def, LAMBDA x : {x.op}))
    /\ Req(X, "Storages", Table(X.stors) = Counting(def, LAMBDA x : x.used))
    /\ Req(X, "MinDistance", Table(X.mins) = {<<s, Min(Distances(def, s))>> : s \in read})
    /\ Req(X, "MaxDistance", Table(X.maxs) = {<<s, Max(Distances(def, s))>> : s \in read})
    /\ Req(X, "MeanDistance",        \* in millionths
           /\ {X.means[i][1] : i \in DOMAIN X.means} = read /\ Len(X.means) = Cardinality(read)
           /\ \A i \in DOMAIN X.means :
                 LET s == X.means[i][1]
                     n == Cardinality(Pairs(def, s))
                 IN Abs(X.means[i][2] * n - SumDist(def, s) * 1000000) <= n)
    /\ Req(X, "EncodingsOnceEach", ToSet(X.spaces) = {def[i].e : i \in DOMAIN def} /\ NoDups(X.spaces))
    /\ Req(X, "EncodingsDescending", \A i \in 1..(Len(X.spaces) - 1) : Below(X.spaces[i + 1], X.spaces[i]))
    /\ Req(X, "ProgramUntouched", X.same)

\* Of a corrupted program: at how many addresses there is a candidate with something
JudgeCorrupted ==
    LET P == [a \in DOMAIN X.program |-> [i \in DOMAIN X.program[a] |-> Rec(X.program[a][i])]]
        KeysAt(a, Keys(_)) == UNION {Keys(P[a][i]) : i \in {i \in DOMAIN P[a] : ~P[a][i].undef}}
        Addresses(Keys(_)) == {<<k, Cardinality({a \in DOMAIN P : k \in KeysAt(a, Keys)})>> :
                                   k \in UNION {KeysAt(a, Keys) : a \in DOMAIN P}}
    IN
    /\ Req(X, "Conditions", Table(X.conds) = Addresses(LAMBDA x : {x.cond}))
    /\ Req(X, "Operations", Table(X.ops) = Addresses(LAMBDA x : {x.op}))
    /\ Req(X, "Storages", Table(X.stors) = Addresses(LAMBDA x : x.used))
    /\ Req(X, "ProgramUntouched", X.same)

Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ IF X.j = "collector" THEN JudgeCollector ELSE JudgeCorrupted
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
