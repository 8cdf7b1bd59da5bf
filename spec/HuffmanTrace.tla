---------------------------- MODULE HuffmanTrace ----------------------------
EXTENDS VFTrace, Huffman
VARIABLES c
X == Cases[c]

\* X.symbols, X.weights: given; X.coded[i]: the place among them of the i-th symbol of the result, X.codes[i]
JudgeCode ==
    LET ws == [i \in DOMAIN X.coded |-> X.weights[X.coded[i]]] IN
    /\ Req(X, "EverySymbolOnce", ToSet(X.coded) = DOMAIN X.weights /\ NoDups(X.coded))
    /\ Req(X, "NoCodeBeginsAsAnother", PrefixFree(X.codes))
    /\ Len(X.codes) > 1 => Req(X, "NoCodeIsWasted", Complete(X.codes))
    /\ Req(X, "NoShorterCode", Cost(X.codes, ws) = Least(X.weights))
    /\ Req(X, "ShortestFirst", \A i \in 1..(Len(X.codes) - 1) : Len(X.codes[i]) <= Len(X.codes[i + 1]))
    /\ Req(X, "SizeIsTheCost", X.size = Cost(X.codes, ws) /\ X.sizeOfGiven = X.size)
    /\ Req(X, "WeightsUntouched", X.same)

\* X.prog[i]: the keys (registers, an operation, a condition) of each instruction; X.freq, X.with: tables
Times(k) == FoldSet(LAMBDA i, s : s + Cardinality({j \in DOMAIN X.prog[i] : X.prog[i][j] = k}), 0, DOMAIN X.prog)
Keys == UNION {ToSet(X.prog[i]) : i \in DOMAIN X.prog}
\* the first places (an instruction may be more than once in the program)
With(k) == {X.first[i] : i \in {i \in DOMAIN X.prog : k \in ToSet(X.prog[i])}}
JudgeFrequency ==
    /\ Req(X, "Frequencies", {<<X.freq[i][1], X.freq[i][2]>> : i \in DOMAIN X.freq} = {<<k, Times(k)>> : k \in Keys})
    /\ Req(X, "InstructionsWithIt",
           /\ {X.with[i][1] : i \in DOMAIN X.with} = Keys
           /\ \A i \in DOMAIN X.with : /\ ToSet(X.with[i][2]) = With(X.with[i][1])
                                       /\ NoDups(X.with[i][2]))

Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ IF X.j = "code" THEN JudgeCode ELSE JudgeFrequency
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
