------------------------------ MODULE Compress ------------------------------
(***************************************************************************)
(* P25: the message without the bits that will be lost.  Bits are numbered *)
(* along the stream: the bit b of the word w is W w + b.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Bits(e, W, shift) == LET k == e[1] * W + e[2] IN k..(k + (IF Len(e) > 2 THEN e[3] ELSE shift) - 1)
Removed(es, W, shift) == UNION {Bits(es[i], W, shift) : i \in DOMAIN es}

\* What is left of a stream of bits
RECURSIVE LeftFrom(_, _, _)
LeftFrom(s, gone, i) == IF i = Len(s) THEN <<>>
                        ELSE (IF i \in gone THEN <<>> ELSE <<s[i + 1]>>) \o LeftFrom(s, gone, i + 1)
Left(s, gone) == LeftFrom(s, gone, 0)
=============================================================================
