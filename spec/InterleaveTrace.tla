-------------------------- MODULE InterleaveTrace --------------------------
(***************************************************************************)
(* P01, P02: what the real interleaver did with a message, in three steps  *)
(* (send, lose, receive), against the protocol of Interleave.              *)
(***************************************************************************)
EXTENDS VFTrace, Words, Interleave

VARIABLES c,      \* case
          l,      \* step in the case
          net     \* what the channel still carries: packet -> words
tvars == <<c, l, net>>

X == Cases[c]
N == Len(X.order)
W == X.width
PerWord == 32 \div W
Total == Len(X.data) * PerWord
\* The chunk k of a sequence of words
Chunk(words, k) == Field(words[(k \div PerWord) + 1], (k % PerWord) * W, W)
Has(words, k) == (k \div PerWord) < Len(words)

SendStep ==
    /\ l = 1
    /\ Req(X, "IsOrder", IsOrder(X.order))
    /\ Req(X, "PacketsAreThoseOfTheOrder", ToSet(X.pids) = 0..(N - 1) /\ Len(X.pids) = N)
    /\ net' = [i \in DOMAIN X.pids |-> X.packets[i]]
    /\ \A i \in DOMAIN X.pids :
         LET p == X.pids[i] IN
         /\ Req(X, "PacketCarriesItsChunks",
                p \in 0..(N - 1) =>
                \A k \in 0..(CountOf(X.order, Total, p) - 1) :
                   Has(X.packets[i], k) /\ Chunk(X.packets[i], k) = Chunk(X.data, KthOf(X.order, p, k)))
         /\ Req(X, "PacketCarriesNothingElse", p \in 0..(N - 1) => X.chunks[i] = CountOf(X.order, Total, p))
    /\ l' = 2 /\ UNCHANGED c

Lost == ToSet(X.lost)
LoseStep == /\ l = 2 /\ l' = 3 /\ net' = [i \in {i \in DOMAIN X.pids : X.pids[i] \notin Lost} |-> net[i]]
            /\ UNCHANGED c

Place(e) == (e[1] * 32 + e[2])
ReceiveStep ==
    /\ l = 3 /\ l' = 1 /\ c' = c + 1 /\ net' = <<>>
    /\ IF DOMAIN net = {}
       THEN Req(X, "AllLostIsRefused", X.raised)
       ELSE /\ Req(X, "Receives", ~X.raised)
            /\ X.raised \/
               LET must == MustReport(X.order, Total, Lost)
                   may  == MayReport(X.order, Total, Lost)
                   places == [i \in DOMAIN X.errors |-> Place(X.errors[i])]
               IN
               /\ Req(X, "SurvivingChunksRestored",
                      \A j \in 0..(Total - 1) : PacketOf(X.order, j) \notin Lost =>
                          Has(X.result, j) /\ Chunk(X.result, j) = Chunk(X.data, j))
               /\ Req(X, "LostChunksReadZero",
                      \A j \in 0..(Total - 1) : (PacketOf(X.order, j) \in Lost /\ Has(X.result, j)) =>
                          Chunk(X.result, j) = 0)
               /\ Req(X, "OnlyPaddingAfterTheData",
                      \A i \in DOMAIN X.result : i > Len(X.data) => X.result[i] = 0)
               /\ Req(X, "ErrorsAreChunkPlaces",
                      \A i \in DOMAIN X.errors : X.errors[i][2] \in 0..31 /\ places[i] % W = 0)
               /\ Req(X, "EveryLostChunkReported", \A j \in must : j * W \in ToSet(places))
               /\ Req(X, "OnlyLostChunksReported", \A i \in DOMAIN places : \E j \in may : places[i] = j * W)
               /\ Req(X, "ErrorsInOrderOnceEach", \A i \in DOMAIN places : i > 1 => places[i - 1] < places[i])

Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ UNCHANGED <<l, net>> /\ Done(Len(Cases))
TraceInit == c = 1 /\ l = 1 /\ net = <<>>
TraceNext == (c <= Len(Cases) /\ (SendStep \/ LoseStep \/ ReceiveStep)) \/ Finish
=============================================================================
