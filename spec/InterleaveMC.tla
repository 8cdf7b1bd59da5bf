---------------------------- MODULE InterleaveMC ----------------------------
(***************************************************************************)
(* The protocol step by step: a sender that deals the chunks, a channel    *)
(* that may lose any packet, and a receiver that goes through the order    *)
(* until it has drained the packets it got.  Explored for every order of   *)
(* up to MAXN packets, every message of up to MAXC chunks and every loss.  *)
(***************************************************************************)
EXTENDS Interleave, TLC
CONSTANTS MAXN, MAXC

VARIABLES order, total,     \* configuration
          sent,             \* chunks the sender has dealt so far
          packets,          \* packet -> sequence of the chunks it carries
          lost, phase,
          pos,              \* the receiver: place in the order
          out,              \* what it put together: chunk, or "lost", or "pad"
          errors            \* where it says that something is missing
vars == <<order, total, sent, packets, lost, phase, pos, out, errors>>

N == Len(order)
Packet == 0..(N - 1)
Orders == UNION {{o \in [1..n -> 0..(n-1)] : IsOrder(o)} : n \in 1..MAXN}
None == -1
Pad == -2

Init == /\ order \in Orders /\ total \in 1..MAXC
        /\ sent = 0 /\ packets = [p \in 0..(Len(order) - 1) |-> <<>>]
        /\ lost = {} /\ phase = "send" /\ pos = 1 /\ out = <<>> /\ errors = {}

\* The real code deals one chunk at a time
Deal == /\ phase = "send" /\ sent < total
        /\ packets' = [packets EXCEPT ![PacketOf(order, sent)] = Append(@, sent)]
        /\ sent' = sent + 1
        /\ UNCHANGED <<order, total, lost, phase, pos, out, errors>>
Transmit == /\ phase = "send" /\ sent = total /\ phase' = "net"
            /\ UNCHANGED <<order, total, sent, packets, lost, pos, out, errors>>
\* Packets are lost in any combination (in increasing order: the order of loss does not matter)
Lose(p) == /\ phase = "net" /\ \A q \in lost : q < p
           /\ lost' = lost \cup {p}
           /\ UNCHANGED <<order, total, sent, packets, phase, pos, out, errors>>
StartReceiving == /\ phase = "net" /\ lost # Packet /\ phase' = "receive"
                  /\ UNCHANGED <<order, total, sent, packets, lost, pos, out, errors>>
\* Nothing can be received
GiveUp == /\ phase = "net" /\ lost = Packet /\ phase' = "failed"
          /\ UNCHANGED <<order, total, sent, packets, lost, pos, out, errors>>
Drained == \A p \in Packet \ lost : packets[p] = <<>>
ReceiveTurn ==
    /\ phase = "receive" /\ ~(pos = 1 /\ Drained)
    /\ LET p == order[pos] IN
       IF p \in lost
       THEN /\ out' = Append(out, None) /\ errors' = errors \cup {Len(out)} /\ UNCHANGED packets
       ELSE IF packets[p] = <<>>
       THEN /\ out' = Append(out, Pad) /\ UNCHANGED <<packets, errors>>
       ELSE /\ out' = Append(out, Head(packets[p])) /\ packets' = [packets EXCEPT ![p] = Tail(@)]
            /\ UNCHANGED errors
    /\ pos' = (pos % N) + 1
    /\ UNCHANGED <<order, total, sent, lost, phase>>
Finish == /\ phase = "receive" /\ pos = 1 /\ Drained /\ phase' = "done"
          /\ UNCHANGED <<order, total, sent, packets, lost, pos, out, errors>>
Next == Deal \/ Transmit \/ (\E p \in Packet : Lose(p)) \/ StartReceiving \/ GiveUp \/ ReceiveTurn \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* What each packet carries is what the declarative part says
PacketsAsDealt == phase = "net" =>
    \A p \in Packet : packets[p] = [k \in 1..CountOf(order, total, p) |-> KthOf(order, p, k - 1)]
\* P01
Lossless == (phase = "done" /\ lost = {}) =>
    /\ Len(out) >= total /\ errors = {}
    /\ \A j \in 1..Len(out) : out[j] = IF j <= total THEN j - 1 ELSE Pad
\* P02
Localised == phase = "done" =>
    /\ \A j \in 0..(total - 1) : PacketOf(order, j) \notin lost => (j < Len(out) /\ out[j + 1] = j)
    /\ \A j \in 0..(Len(out) - 1) : PacketOf(order, j) \in lost => out[j + 1] = None
    /\ MustReport(order, total, lost) \subseteq errors
    /\ errors \subseteq MayReport(order, total, lost)
Terminates == <>(phase \in {"done", "failed"})

\* P03, on the definition itself
ASSUME \A n \in 1..70 : LET o == SPOrder(n) IN Len(o) = n /\ IsOrder(o)
ASSUME \A m \in 0..3 : SPDisperses(m)
=============================================================================
