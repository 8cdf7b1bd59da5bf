---------------------------- MODULE BitQueueGen ----------------------------
(***************************************************************************)
(* Behaviours of BitQueue with words of 32 bits, printed to be replayed    *)
(* in the real queue.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
CONSTANT DEPTH
VARIABLES q, h
WORDSIZE == 32
BQ == INSTANCE BitQueue
\* Only the widths matter: what is in the bits is chosen by the driver
NoWord == [i \in 0..31 |-> 0]
GInit == BQ!BQInit /\ h = <<>>
GEnq == \E w \in {RandomElement(1..32)} : \E f \in {RandomElement(0..(32 - w))} :
          BQ!Enqueue(NoWord, f, w) /\ h' = Append(h, <<"e", w, f>>)
GDeq == \E w \in {RandomElement(1..32)} : \E t \in {RandomElement(0..(32 - w))} :
          BQ!Dequeue(w) /\ h' = Append(h, <<"d", w, t>>)
GNext == Len(h) < DEPTH /\ (GEnq \/ GDeq)
Emit == Len(h) = DEPTH => PrintT("VFGEN|" \o ToJson(h))
=============================================================================
