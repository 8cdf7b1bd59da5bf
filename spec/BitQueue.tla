------------------------------ MODULE BitQueue ------------------------------
(***************************************************************************)
(* P05: a queue of bits.  Numbers of word_size bits, which may change from *)
(* one call to the next, go in at one end and come out at the other.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT WORDSIZE      \* 32 in the code
VARIABLE q             \* the bits in the queue, first in first

\* The w bits of a word (a function 0..WORDSIZE-1 -> {0,1}) from the bit f on
Slice(word, f, w) == [i \in 1..w |-> word[f + i - 1]]
\* The word with the bits s placed from the bit t on
Place(word, t, s) == [i \in 0..(WORDSIZE - 1) |-> IF i >= t /\ i < t + Len(s) THEN s[i - t + 1] ELSE word[i]]

BQInit == q = <<>>
Enqueue(word, from, w) ==
    /\ w \in 1..WORDSIZE /\ from \in 0..(WORDSIZE - w)
    /\ q' = q \o Slice(word, from, w)
\* Takes w bits out, and gives the word with them from the bit 'to' on
Dequeue(w) == /\ w \in 1..WORDSIZE /\ w <= Len(q)
              /\ q' = SubSeq(q, w + 1, Len(q))
\* Taking more than there is gives what is left, then zeros, and leaves nothing
Overdraw(w) == /\ w \in 1..WORDSIZE /\ w > Len(q)
               /\ q' = <<>>
Overdrawn(word, to, w) == Place(word, to, q \o [i \in 1..(w - Len(q)) |-> 0])
Dequeued(word, to, w) == Place(word, to, SubSeq(q, 1, w))
IsEmpty == q = <<>>
=============================================================================
