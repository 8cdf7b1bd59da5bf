------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* P32: a text progress bar, told of each of the iterations of a loop.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
(* A call shows nothing, a percentage, the end, or both.  A percentage is  *)
(* that of the iterations done, -1 if none is shown.                       *)
Nothing == [done |-> -1, end |-> FALSE]
Shows(n, e) == [done |-> n, end |-> e]
\* What the call number k (from 1) shows, if it is not the end: last is the number of iterations of the last percentage shown, -1 if none was
Due(k, total, dist, last) == last = -1 \/ 100 * ((k - 1) - last) >= dist * total
\* The end is shown when no more than dist iterations are left (that is how it was meant to stop short)
AtTheEnd(k, total, dist) == (k - 1) + dist >= total
=============================================================================
