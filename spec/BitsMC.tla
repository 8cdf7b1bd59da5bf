------------------------------- MODULE BitsMC -------------------------------
(***************************************************************************)
(* Copying bits with a mask and a shift is copying them one by one.        *)
(***************************************************************************)
EXTENDS Integers, Bitwise
CONSTANT W
VARIABLES from, to, lo, hi, dest, b, result, byMask
vars == <<from, to, lo, hi, dest, b, result, byMask>>

BitOf(v, i) == (v \div 2^i) % 2
Mask(l, h) == (2^(h + 1) - 1) ^^ (2^l - 1)
All == 2^W - 1
ByMask ==
    LET m == Mask(dest, dest + hi - lo)
        kept == to & (All - m)
    IN kept | (m & (IF lo > dest THEN from \div 2^(lo - dest) ELSE from * 2^(dest - lo)))
Init == /\ from \in 0..All /\ to \in 0..All
        /\ lo \in 0..(W - 1) /\ hi \in lo..(W - 1) /\ dest \in 0..(W - 1 - (hi - lo))
        /\ b = 0 /\ result = to /\ byMask = 0
\* one bit at a time
Copy == /\ b <= hi - lo
        /\ result' = result - BitOf(result, dest + b) * 2^(dest + b) + BitOf(from, lo + b) * 2^(dest + b)
        /\ b' = b + 1
        /\ UNCHANGED <<from, to, lo, hi, dest, byMask>>
End == /\ b = hi - lo + 1 /\ byMask' = ByMask /\ b' = W + 1 /\ UNCHANGED <<from, to, lo, hi, dest, result>>
Next == Copy \/ End
Spec == Init /\ [][Next]_vars
Same == b = W + 1 => byMask = result
=============================================================================
