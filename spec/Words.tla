------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* 32-bit words.  TLC has signed 32-bit integers, thus a word is the       *)
(* integer with the same bits in two's complement.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

WORD == 32

\* 2^n for n in 0..30; bit 31 is the sign
Bit(v, n) == IF n = 31 THEN (IF v < 0 THEN 1 ELSE 0) ELSE (v \div (2^n)) % 2

\* The word with only the bit n on
On(n) == IF n = 31 THEN (-2147483647) - 1 ELSE 2^n

\* Bits lo..lo+w-1 of a word as a number (itself a word if w = 32)
Field(v, lo, w) == IF w = 32 THEN v
                   ELSE IF lo = 31 THEN Bit(v, 31)
                   ELSE IF w = 31 THEN \* does not fit 2^31 for the modulus
                        (IF lo = 0 THEN (IF v < 0 THEN v + 2147483647 + 1 ELSE v)
                                   ELSE (IF v < 0 THEN (v \div 2) + 1073741824 + 1073741824 ELSE v \div 2))
                   ELSE (v \div (2^lo)) % (2^w)

\* The word with the bit n flipped
Flip(v, n) == IF Bit(v, n) = 1 THEN (IF n = 31 THEN v + 2147483647 + 1 ELSE v - 2^n)
                               ELSE (IF n = 31 THEN (v - 2147483647) - 1 ELSE v + 2^n)

\* The bits of a word, least significant first
BitsOf(v) == [n \in 0..31 |-> Bit(v, n)]

\* Where two words differ
Diff(v, u) == {n \in 0..31 : Bit(v, n) # Bit(u, n)}
=============================================================================
