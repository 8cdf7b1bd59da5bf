---------------------------- MODULE BitQueueImpl ----------------------------
(***************************************************************************)
(* How the code implements BitQueue: words that are filled one after the   *)
(* other, dropped once read, and a chunk that may cross from one word to   *)
(* the next.  TLC checks that it refines BitQueue, with words of 4 bits.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS WORDSIZE, MAXBITS

VARIABLES words,    \* what is stored
          eqw, eqb, \* the word (from 0) and bit where the next bit goes
          dqb       \* the bit of the first word that comes out next
vars == <<words, eqw, eqb, dqb>>

Bits == 0..(WORDSIZE - 1)
Word == [Bits -> {0, 1}]
Zero == [b \in Bits |-> 0]

\* The bits stored, in order
Stored == LET n == eqw * WORDSIZE + eqb - dqb
          IN  [i \in 1..n |-> words[((dqb + i - 1) \div WORDSIZE) + 1][(dqb + i - 1) % WORDSIZE]]
Abs == INSTANCE BitQueue WITH q <- Stored, WORDSIZE <- WORDSIZE

Copy(src, dst, from, to, at) == [b \in Bits |-> IF b >= at /\ b <= at + (to - from) THEN src[b - at + from] ELSE dst[b]]

Init == words = <<Zero>> /\ eqw = 0 /\ eqb = 0 /\ dqb = 0

Push(value, from, w) ==
    LET fits == WORDSIZE - eqb IN
    /\ UNCHANGED dqb
    /\ IF w > fits
       THEN \* crosses to the next word
            /\ words' = Append([words EXCEPT ![eqw + 1] = Copy(value, @, from, from + fits - 1, eqb)],
                               Copy(value, Zero, from + fits, from + w - 1, 0))
            /\ eqw' = eqw + 1 /\ eqb' = w - fits
       ELSE LET filled == [words EXCEPT ![eqw + 1] = Copy(value, @, from, from + w - 1, eqb)]
            IN IF w = fits THEN words' = Append(filled, Zero) /\ eqw' = eqw + 1 /\ eqb' = 0
                           ELSE words' = filled /\ eqw' = eqw /\ eqb' = eqb + w
Pop(w) ==
    LET rest == WORDSIZE - dqb IN
    /\ w <= Len(Stored)
    /\ UNCHANGED eqb
    /\ IF w < rest THEN dqb' = dqb + w /\ UNCHANGED <<words, eqw>>
       ELSE words' = Tail(words) /\ eqw' = eqw - 1 /\ dqb' = w - rest
\* What the code returns
Popped(value, to, w) ==
    LET rest == WORDSIZE - dqb IN
    IF w <= rest THEN Copy(words[1], value, dqb, dqb + w - 1, to)
    ELSE Copy(words[2], Copy(words[1], value, dqb, WORDSIZE - 1, to), 0, w - rest - 1, to + rest)

Empty == eqw < 0 \/ (eqw = 0 /\ eqb <= dqb)

DoPush == \E w \in 1..WORDSIZE : \E from \in 0..(WORDSIZE - w) : \E v \in Word : Push(v, from, w)
DoPop == \E w \in 1..WORDSIZE : Pop(w)
Next == DoPush \/ DoPop
Small == Len(Stored) <= MAXBITS
Spec == Init /\ [][Next]_vars

AbsInit == Abs!BQInit
AbsNext == \/ \E w \in 1..WORDSIZE : \E from \in 0..(WORDSIZE - w) : \E v \in Word : Abs!Enqueue(v, from, w)
           \/ \E w \in 1..WORDSIZE : Abs!Dequeue(w)
Refines == AbsInit /\ [][AbsNext]_(Stored)
EmptyAgrees == Empty = Abs!IsEmpty
PoppedAgrees == \A w \in 1..WORDSIZE : w <= Len(Stored) =>
                  \A to \in 0..(WORDSIZE - w) : \A v \in {Zero, [b \in Bits |-> 1]} :
                     Popped(v, to, w) = Abs!Dequeued(v, to, w)
=============================================================================
