----------------------------- MODULE PredictMC -----------------------------
(***************************************************************************)
(* The prediction as the code makes it: a cursor per lost packet that      *)
(* jumps from one of its chunks to the next until all of them are past the *)
(* end.  Explored for every order, loss, message and width of the bounds;  *)
(* what it finds are the chunks of Interleave's lost packets.  Then those  *)
(* bits are spread in candidates, one at a time.                           *)
(***************************************************************************)
EXTENDS Corruption, TLC
CONSTANTS MAXN, MAXBITS, WIDTHS

VARIABLES order, width, total, lost, cursor, found, phase, cands, todo
vars == <<order, width, total, lost, cursor, found, phase, cands, todo>>
Orders == UNION {{o \in [1..n -> 0..(n-1)] : IsOrder(o)} : n \in 1..MAXN}

Init == /\ order \in Orders /\ width \in WIDTHS /\ total \in {t \in 1..MAXBITS : t % width = 0}
        /\ lost \in SUBSET (0..(Len(order) - 1))
        /\ cursor = [p \in lost |-> width * TurnOf(order, p)]
        /\ found = {} /\ phase = "predict" /\ cands = {0} /\ todo = {}
Jump(p) == /\ phase = "predict" /\ cursor[p] < total
           /\ found' = found \cup {cursor[p]}
           /\ cursor' = [cursor EXCEPT ![p] = @ + width * Len(order)]
           /\ UNCHANGED <<order, width, total, lost, phase, cands, todo>>
Predicted == /\ phase = "predict" /\ \A p \in lost : cursor[p] >= total
             /\ phase' = "corrupt" /\ todo' = InWord(ExactLoss(found, width), 0)
             /\ UNCHANGED <<order, width, total, lost, cursor, found, cands>>
\* Every candidate so far, with the bit as it was and flipped
CorruptBit(b) == /\ phase = "corrupt" /\ b \in todo /\ todo' = todo \ {b}
                 /\ cands' = cands \cup {Flip(v, b) : v \in cands}
                 /\ UNCHANGED <<order, width, total, lost, cursor, found, phase>>
Next == (\E p \in lost : Jump(p)) \/ Predicted \/ (\E b \in todo : CorruptBit(b))
Spec == Init /\ [][Next]_vars

FoundAreLost == phase = "corrupt" => found = LostChunks(order, width, total, lost)
NothingElse == found \subseteq LostChunks(order, width, total, lost)
\* The receiver reports the same chunks, but those of rounds it cannot tell
AsTheReceiver == (phase = "corrupt" /\ lost # 0..(Len(order) - 1)) =>
    LET chunks == total \div width
        places == {b \div width : b \in found}
    IN  MustReport(order, chunks, lost) \subseteq places /\
        places \cap (0..(Rounds(order, chunks, lost) * Len(order) - 1)) \subseteq MayReport(order, chunks, lost)
AllCandidates == (phase = "corrupt" /\ todo = {}) =>
    LET F == InWord(ExactLoss(found, width), 0) IN
    /\ Cardinality(cands) = 2^Cardinality(F)
    /\ \A v \in cands : Diff(v, 0) \subseteq F
    /\ cands = Span({0}, F)
=============================================================================
