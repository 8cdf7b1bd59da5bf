------------------------------- MODULE Blaum -------------------------------
(***************************************************************************)
(* P30: the interleaving of Blaum, Bruck and Vardy for data in two         *)
(* dimensions.  The cell (x, y) travels in the packet Packet(x, y, m) of   *)
(* m.  With m = (t^2 + 1) / 2 packets, t odd, the cells of a packet are    *)
(* t steps apart: a burst of t cells next to each other hits each packet   *)
(* once at most.                                                           *)
(***************************************************************************)
EXTENDS Integers
\* The whole number nearest to the square root of n
Nearest(n) == CHOOSE b \in 1..n : (2 * b - 1) * (2 * b - 1) <= 4 * n /\ 4 * n < (2 * b + 1) * (2 * b + 1)
Shift(m) == Nearest(2 * m - 1)
Packet(x, y, m) == (x - y * Shift(m)) % m
\* t, if m is a number of packets with the property
Perfect(m) == LET t == Shift(m) IN t % 2 = 1 /\ 2 * m = t * t + 1
=============================================================================
