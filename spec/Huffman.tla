------------------------------ MODULE Huffman ------------------------------
(***************************************************************************)
(* P23: codes for the symbols of a program, as short as can be.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

\* The least cost of coding symbols with these weights: the sum of all the merges of the two lightest
RECURSIVE Least(_)
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Lightest(s) == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j]
Least(ws) ==
    IF Len(ws) <= 1 THEN 0
    ELSE LET i == Lightest(ws)
             a == Remove(ws, i)
             j == Lightest(a)
             m == ws[i] + a[j]
         IN m + Least(Append(Remove(a, j), m))

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
PrefixFree(codes) == \A i, j \in DOMAIN codes : i # j => ~IsPrefix(codes[i], codes[j])
\* Every sequence of bits is decoded: in 2^L-ths, where L is the longest
Complete(codes) ==
    LET L == Max({Len(codes[i]) : i \in DOMAIN codes})
    IN FoldSet(LAMBDA i, s : s + 2^(L - Len(codes[i])), 0, DOMAIN codes) = 2^L
Cost(codes, ws) == FoldSet(LAMBDA i, s : s + ws[i] * Len(codes[i]), 0, DOMAIN codes)
=============================================================================
