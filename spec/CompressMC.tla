----------------------------- MODULE CompressMC -----------------------------
(***************************************************************************)
(* The compressor removes one piece at a time, the last one first, so that *)
(* the places of the others do not change.                                 *)
(***************************************************************************)
EXTENDS Compress, FiniteSetsExt
CONSTANTS W, WORDS, SHIFT
VARIABLES errors, todo, stream
vars == <<errors, todo, stream>>

Total == W * WORDS
Entries == {<<w, b>> : w \in 0..(WORDS - 1), b \in 0..(W - 1)} \cup {<<w, b, n>> : w \in 0..(WORDS - 1), b \in 0..(W - 1), n \in 0..SHIFT}
Apart(E) == \A x, y \in E : x # y => Bits(x, W, SHIFT) \cap Bits(y, W, SHIFT) = {}
           /\ (x[1] * W + x[2] # y[1] * W + y[2])
Init == /\ errors \in {E \in UNION {kSubset(n, Entries) : n \in 0..3} : Apart(E)}
        /\ todo = errors
        /\ stream = [i \in 1..Total |-> i - 1]           \* each bit is its place
At(e) == e[1] * W + e[2]
Delete(s, k, n) == SubSeq(s, 1, k) \o SubSeq(s, k + n + 1, Len(s))
Remove == /\ todo # {}
          /\ LET e == CHOOSE e \in todo : \A f \in todo : At(f) <= At(e)
                 n == IF Len(e) > 2 THEN e[3] ELSE SHIFT
             IN /\ stream' = Delete(stream, At(e), n)
                /\ todo' = todo \ {e}
          /\ UNCHANGED errors
Next == Remove
Spec == Init /\ [][Next]_vars
Gone(E) == UNION {Bits(e, W, SHIFT) : e \in E}
WhatIsLeft == stream = Left([i \in 1..Total |-> i - 1], Gone(errors \ todo))
=============================================================================
