------------------------------ MODULE SsaTrace ------------------------------
EXTENDS VFTrace, Ssa
VARIABLES c
X == Cases[c]
Edges0 == {<<X.edges[i][1], X.edges[i][2]>> : i \in DOMAIN X.edges}
Nodes == 1..X.n
Pair(q) == <<q[1], q[2]>>
Pairs(s) == {Pair(s[i]) : i \in DOMAIN s}

\* How a block uses a variable: its first access
Reads(b, k, v) == \E j \in DOMAIN b[k].reads : b[k].reads[j] = v
WritesIt(b, k, v) == \E j \in DOMAIN b[k].writes : b[k].writes[j] = v
ReadFirst(b, v) == \E k \in DOMAIN b : Reads(b, k, v) /\ \A j \in 1..(k - 1) : ~WritesIt(b, j, v)
KilledFirst(b, v) == \E k \in DOMAIN b : WritesIt(b, k, v) /\ \A j \in 1..k : ~Reads(b, j, v)
Variables == UNION {UNION {ToSet(X.blocks[n][k].reads) \union ToSet(X.blocks[n][k].writes) : k \in DOMAIN X.blocks[n]} : n \in Nodes}

\* The index of the last definition of v in the instructions 1..k of a block, -1 if none
LastDef(b, k, v) ==
    LET s == {j \in 1..k : WritesIt(b, j, v)} IN
    IF s = {} THEN -1
    ELSE LET j == CHOOSE j \in s : \A i \in s : i <= j
             w == CHOOSE w \in DOMAIN b[j].writes : b[j].writes[w] = v
         IN b[j].ssaWritten[w][2]
PhiOf(n, v) == LET s == {i \in DOMAIN X.phis[n] : X.phis[n][i].name[1] = v} IN
               IF s = {} THEN -1 ELSE X.phis[n][CHOOSE i \in s : TRUE].name[2]

Judge ==
    LET edges == Edges0
        reach == Reach(edges, X.root, NOBODY)
        dom == Dominated(edges, X.root)
        df == [n \in reach |-> Frontier(edges, dom, n)]
        all == [n \in Nodes |-> [k \in DOMAIN X.blocks[n] |-> [j \in DOMAIN X.blocks[n][k].ssaWritten |-> X.blocks[n][k].ssaWritten[j]]]]
        \* all the definitions, to be counted
        phiNames == UNION {{<<n, 0, i>> : i \in DOMAIN X.phis[n]} : n \in Nodes}
        instNames == UNION {UNION {{<<n, k, j>> : j \in DOMAIN all[n][k]} : k \in DOMAIN all[n]} : n \in Nodes}
        nameOf(d) == IF d[2] = 0 THEN Pair(X.phis[d[1]][d[3]].name) ELSE Pair(all[d[1]][d[2]][d[3]])
        defs == {nameOf(d) : d \in phiNames} \union {nameOf(d) : d \in instNames}
        shaped == /\ \A n \in reach : \A k \in DOMAIN X.blocks[n] :
                        LET x == X.blocks[n][k] IN
                        Len(x.ssaWritten) = Len(x.writes) /\ \A j \in DOMAIN x.writes : x.ssaWritten[j][1] = x.writes[j]
                  /\ \A n \in Nodes \ reach : \A k \in DOMAIN X.blocks[n] :
                        X.blocks[n][k].ssaWritten = <<>> /\ X.blocks[n][k].ssaRead = <<>>
    IN
    /\ Req(X, "WrittenNamesOfTheStoragesWritten", shaped)
    /\ Req(X, "NamesDefinedOnce", Cardinality(defs) = Cardinality(phiNames) + Cardinality(instNames))
    /\ Req(X, "DefinitionsAreNotTheInitialName", \A d \in defs : d[2] >= 1)
    /\ Req(X, "ReadNamesOfTheStoragesRead", \A n \in reach : \A k \in DOMAIN X.blocks[n] :
            LET x == X.blocks[n][k] IN NoDups(x.ssaRead) /\ {x.ssaRead[j][1] : j \in DOMAIN x.ssaRead} = ToSet(x.reads) /\ Len(x.ssaRead) = Len(x.reads))
    /\ ~shaped \/ \A v \in Variables :
        LET gen == [n \in Nodes |-> LET d == LastDef(X.blocks[n], Len(X.blocks[n]), v) IN IF d # -1 THEN d ELSE PhiOf(n, v)]
            out == Out(edges, X.root, gen)
            global == \E n \in Nodes : ReadFirst(X.blocks[n], v)
            merge == Iterated(df, {n \in Nodes : \E k \in DOMAIN X.blocks[n] : WritesIt(X.blocks[n], k, v)}, {})
        IN
        /\ Req(X, "ReadsSeeTheLastDefinition", \A n \in reach : \A k \in DOMAIN X.blocks[n] :
                Reads(X.blocks[n], k, v) =>
                    LET d == LastDef(X.blocks[n], k - 1, v)
                        may == IF d # -1 THEN {d} ELSE IF PhiOf(n, v) # -1 THEN {PhiOf(n, v)} ELSE In(edges, X.root, out, n)
                        x == X.blocks[n][k]
                    IN {x.ssaRead[j][2] : j \in {j \in DOMAIN x.ssaRead : x.ssaRead[j][1] = v}} = may)
        /\ Req(X, "PhiWhereDefinitionsMerge", {n \in Nodes : PhiOf(n, v) # -1} =
                IF ~global THEN {} ELSE {n \in merge : n \notin ToSet(X.ends) /\ ~KilledFirst(X.blocks[n], v)})
        /\ Req(X, "PhiOncePerVariable", \A n \in Nodes : Cardinality({i \in DOMAIN X.phis[n] : X.phis[n][i].name[1] = v}) <= 1)
        /\ Req(X, "PhiOfWhatArrives", \A n \in reach : \A i \in DOMAIN X.phis[n] : X.phis[n][i].name[1] = v =>
                Pairs(X.phis[n][i].args) = {<<v, x>> : x \in UNION {out[m] : m \in PredOf(edges, n) \cap reach}})
    /\ LET insts == UNION {{<<n, k>> : k \in DOMAIN X.blocks[n]} : n \in Nodes}
           phis == UNION {{<<n, i>> : i \in DOMAIN X.phis[n]} : n \in Nodes}
           fromInst(d) == LET x == X.blocks[d[1]][d[2]] IN Pairs(x.ssaRead) \X Pairs(x.ssaWritten)
           fromPhi(d) == LET x == X.phis[d[1]][d[2]] IN Pairs(x.args) \X {Pair(x.name)}
           deps == UNION {fromInst(d) : d \in insts} \union UNION {fromPhi(d) : d \in phis}
       IN /\ Req(X, "DependenciesAreReadToWritten", {<<Pair(X.depEdges[i][1]), Pair(X.depEdges[i][2])>> : i \in DOMAIN X.depEdges} = deps)
          /\ Req(X, "DependenciesHaveAllDefinitions", Pairs(X.depNodes) = defs \union {e[1] : e \in deps})
    /\ Req(X, "GraphUntouched", X.same)

Step == c <= Len(Cases) /\ c' = c + 1 /\ Req(X, "Completes", ~X.raised) /\ (X.raised \/ Judge)
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
