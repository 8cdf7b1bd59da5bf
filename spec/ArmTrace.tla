------------------------------ MODULE ArmTrace ------------------------------
EXTENDS VFTrace, Arm
VARIABLES c
X == Cases[c]

\* Views of several words of the program, and which have the same operation
SameSet(seq, set) == NoDups(seq) /\ ToSet(seq) = set
JudgeView(w) ==
    LET v == w.word IN
    /\ Class(v) # "unknown" \/ Fail(X, "NotAWordOfTheSpecification")
    /\ Class(v) = "unknown" \/ w.undef \/
        /\ Req(X, "Condition", w.cond = Cond(v))
        /\ Req(X, "RegistersUsed", SameSet(w.used, Used(v)))
        /\ Req(X, "RegistersWritten", SameSet(w.written, Written(v)))
        /\ Req(X, "RegistersRead", SameSet(w.read, Read(v)))
        /\ Req(X, "StoragesUsed", SameSet(w.sUsed, StoragesUsed(v)))
        /\ Req(X, "StoragesWritten", SameSet(w.sWritten, StoragesWritten(v)))
        /\ Req(X, "StoragesRead", SameSet(w.sRead, StoragesRead(v)))
        /\ Req(X, "Branch", w.branch = Jumps(v))
        /\ Req(X, "Link", w.link = Links(v))
        /\ Req(X, "PushPop", w.pushpop = (IsPush(v) \/ IsPop(v)))
        \* Capstone takes the operations with carry as if they always changed the flags, and the bits that UADD8 leaves for SEL as some
        /\ Req(X, "Flags", w.flags = ChangesFlags(v) \/ (w.flags /\ Op(v) \in {"adc", "sbc", "rsc", "uadd8"}))
        /\ Req(X, "Target", IF TargetKnown(v) THEN w.known /\ w.target = Target(v, w.addr) ELSE ~w.known)
        /\ Req(X, "Same", w.same)
JudgeViews ==
    /\ \A i \in DOMAIN X.views : JudgeView(X.views[i]) /\ Req(X, "Defined", ~X.views[i].undef)
    /\ \A i, j \in DOMAIN X.views :
        (i < j /\ ~X.views[i].undef /\ ~X.views[j].undef) =>
            Req(X, "OperationTellsThemApart", (X.views[i].op = X.views[j].op) = (Op(X.views[i].word) = Op(X.views[j].word)))

\* The first instruction of the list with the address
JudgeBranchTo ==
    LET here == {i \in DOMAIN X.addrs : X.addrs[i] = Target(X.word, X.addr)} IN
    Req(X, "BranchTo", X.to = (IF ~TargetKnown(X.word) \/ here = {} THEN 0 ELSE CHOOSE i \in here : \A j \in here : i <= j))

JudgeObject ==
    /\ Req(X, "FromText", X.sameText)
    /\ Req(X, "FromNothingElse", X.refused)
    /\ Req(X, "Encoding", X.encoding = X.word)
    /\ Req(X, "Address", X.address = X.addr)
    /\ Req(X, "Ignored", X.ignored = (X.undef \/ X.ignore))
    /\ Req(X, "ScoreIsTheSum", X.score = X.sum)

Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ CASE X.j = "views" -> JudgeViews [] X.j = "branch to" -> JudgeBranchTo [] X.j = "object" -> JudgeObject
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
