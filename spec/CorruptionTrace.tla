-------------------------- MODULE CorruptionTrace --------------------------
(***************************************************************************)
(* P04 (predictions), P06 (candidates of lost packets), P07 (random        *)
(* corruption).                                                            *)
(***************************************************************************)
EXTENDS VFTrace, Corruption, FiniteSetsExt
VARIABLES c
X == Cases[c]

(*------------------------------- P04 -------------------------------------*)
Lost == ToSet(X.lost)
Total == 32 * X.size
Chunks == LostChunks(X.order, X.width, Total, Lost)
WellFormed(e) == /\ Len(e) \in {2, 3} /\ e[1] >= 0 /\ e[2] \in 0..31
                 /\ Len(e) = 3 => e[3] >= 0 /\ e[2] + e[3] <= 32
                 /\ Len(e) = 2 => e[2] + X.width <= 32
JudgePrediction ==
    LET ok == \A i \in DOMAIN X.entries : WellFormed(X.entries[i])
        bits == UNION {Covered(X.entries[i], X.width) : i \in DOMAIN X.entries}
        inside == bits \cap (0..(Total - 1))
        exact == ExactLoss(Chunks, X.width)
    IN
    /\ Req(X, "WellFormed", ok)
    /\ Req(X, "OnceEach", NoDups(X.entries))
    /\ Req(X, "OrderAndLossesNotAltered", X.kept)
    /\ Req(X, "TheSameWhenAskedAgain", X.again = X.entries)
    /\ ok =>
        IF inside = exact \cap (0..(Total - 1)) /\ bits \subseteq exact
        THEN TRUE
        ELSE IF Explained(bits, Chunks, X.width) THEN Known(X, "ChunkAtTheEndOfAWord")
        ELSE /\ Req(X, "EveryLostBitPredicted", exact \cap (0..(Total-1)) \subseteq bits \cup {LastBit(b) : b \in {d \in Chunks : AtTheEnd(d, X.width)}})
             /\ Req(X, "OnlyLostBitsPredicted", bits \subseteq exact \cup DeviantLoss(Chunks, X.width))
             /\ Fail(X, "PredictedLossIsTheActualLoss")

(*------------------------------- P06 -------------------------------------*)
\* X.before[i], X.after[i]: the candidates of the i-th address, in order of address
JudgeCandidates ==
    LET exact == ExactLoss(Chunks, X.width)
        deviant == DeviantLoss(Chunks, X.width)
        AsLoss(loss, i) == ToSet(X.after[i]) = Span(ToSet(X.before[i]), InWord(loss, i - 1))
    IN
    /\ Req(X, "SameAddresses", X.addrsBefore = X.addrsAfter)
    /\ Len(X.after) = Len(X.before) =>
        \A i \in DOMAIN X.before :
          /\ Req(X, "OnceEach", NoDups(X.after[i]))
          /\ Req(X, "OriginalsAreCandidates", ToSet(X.before[i]) \subseteq ToSet(X.after[i]))
          /\ Req(X, "UndamagedInstructionsUntouched",
                 InWord(exact, i - 1) \cup InWord(deviant, i - 1) = {} => ToSet(X.after[i]) = ToSet(X.before[i]))
          /\ Req(X, "CandidatesAreAtTheirAddress", X.where[i])
          /\ IF AsLoss(exact, i) THEN TRUE
             ELSE IF AsLoss(deviant, i) THEN Known(X, "ChunkAtTheEndOfAWord")
             ELSE Fail(X, "CandidatesAreAllTheWaysToFillTheLostBits")

(*------------------------------- P07 -------------------------------------*)
\* The bits in which a set of words differs from a word
Touched(V, v) == UNION {Diff(u, v) : u \in V}

\* All the combinations of some amount of bits of lo..hi
JudgeBits ==
    LET V == ToSet(X.result)
        F == Touched(V, X.enc)
    IN
    /\ Req(X, "OnceEach", NoDups(X.result))
    /\ Req(X, "OriginalIsACandidate", X.enc \in V)
    /\ Req(X, "OnlyTheBitsAskedFor", F \subseteq ToSet(X.allowed))
    /\ Req(X, "AsManyBitsAsAskedFor", Cardinality(F) = X.amount)
    /\ Req(X, "AllTheirCombinations", Cardinality(V) = 2^Cardinality(F))

\* Candidates are added to an instruction; those that are not instructions may be left out
JudgeInstruction ==
    LET new == SubSeq(X.after, Len(X.before) + 1, Len(X.after))
        F == Touched(ToSet(new), X.enc)
    IN
    /\ Req(X, "FormerCandidatesStay", Len(X.after) >= Len(X.before) /\ SubSeq(X.after, 1, Len(X.before)) = X.before)
    /\ Req(X, "OnceEach", NoDups(new) /\ X.enc \notin ToSet(new))
    /\ Req(X, "OnlyTheBitsAskedFor", F \subseteq ToSet(X.allowed))
    /\ Req(X, "NoMoreBitsThanAskedFor", \A v \in ToSet(new) : Cardinality(Diff(v, X.enc)) <= X.amount)
    /\ Req(X, "NoMoreCandidatesThanCombinations", Len(new) < 2^X.amount)
    \* of a single part all the combinations of the same bits; with several, each candidate of the
    \* first part draws other bits of the next
    /\ X.parts = 1 =>
         Req(X, "AllTheirCombinations",
             /\ Cardinality(F) <= X.amount
             /\ Span({X.enc}, F) \subseteq ToSet(new) \cup {X.enc} \cup ToSet(X.undefined))
    /\ Req(X, "UndefinedAreLeftOut", ToSet(new) \cap ToSet(X.undefined) = {})
    /\ Req(X, "OthersUntouched", X.othersSame)

\* A program: X.pct percent (at least one) of the instructions, each with 1..X.max bits
Expected == \* how many: the ceiling of n pct / 100, and one more is tolerated when floating point numbers may take it for a bit more
    LET n == Len(X.before)
        k == Max2(1, (n * X.pct + 99) \div 100)
    IN {Min2(k, n)} \cup (IF X.rounding THEN {Min2(k + 1, n)} ELSE {})
JudgeProgram ==
    LET hit == {i \in DOMAIN X.before : X.after[i] # X.before[i]} IN
    IF X.pct < 0 \/ X.pct > 100
    THEN /\ Req(X, "InvalidPercentRefused", X.raised)
         /\ Req(X, "RefusedWithoutDamage", X.after = X.before)
    ELSE
    /\ Req(X, "Completes", ~X.raised)
    /\ X.raised \/
       /\ Req(X, "SameAddresses", X.addrsBefore = X.addrsAfter)
       /\ X.pristine => Req(X, "AsManyInstructionsAsAskedFor", Cardinality(hit) \in Expected)
       /\ ~X.pristine => Req(X, "NoMoreInstructionsThanAskedFor", \E k \in Expected : Cardinality(hit) <= k)
       /\ Len(X.after) = Len(X.before) =>
          \A i \in hit :
             LET V == ToSet(X.after[i])
                 F == Touched(V, X.before[i][1])
             IN
             /\ Req(X, "OnceEach", NoDups(X.after[i]))
             /\ Req(X, "OriginalIsACandidate", X.before[i][1] \in V)
             /\ Len(X.before[i]) = 1 => Req(X, "BitErrorsWithinTheLimit", Cardinality(F) \in 1..Max2(1, X.max))
             /\ Len(X.before[i]) = 1 => Req(X, "AllTheirCombinations", Cardinality(V) = 2^Cardinality(F))
             /\ Req(X, "CandidatesAreAtTheirAddress", X.where[i])

\* Over many draws everything is hit sometimes
JudgeReach == Req(X, "EverythingIsHitSometimes", ToSet(X.hit) = ToSet(X.all))

\* A distribution of errors among parts
JudgeShares ==
    /\ Req(X, "OneShareEach", Len(X.shares) = X.bins)
    /\ Req(X, "SharesAreNotNegative", \A i \in DOMAIN X.shares : X.shares[i] >= 0)
    /\ Req(X, "NoMoreThanThereIs", FoldSet(LAMBDA i, s : s + X.shares[i], 0, DOMAIN X.shares) <= X.amount)
    /\ X.bins = 1 => Req(X, "OnePartGetsAll", X.shares = <<X.amount>>)

Step == /\ c <= Len(Cases)
        /\ CASE X.j = "prediction"  -> JudgePrediction
             [] X.j = "candidates"  -> JudgeCandidates
             [] X.j = "bits"        -> JudgeBits
             [] X.j = "instruction" -> JudgeInstruction
             [] X.j = "program"     -> JudgeProgram
             [] X.j = "reach"       -> JudgeReach
             [] X.j = "shares"      -> JudgeShares
        /\ c' = c + 1
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
