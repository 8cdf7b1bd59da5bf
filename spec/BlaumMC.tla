------------------------------ MODULE BlaumMC ------------------------------
(***************************************************************************)
(* A burst of errors that spreads from a cell to the ones next to it: as   *)
(* long as it has less than t cells in between, it does not hit twice the  *)
(* packet it began with.                                                   *)
(***************************************************************************)
EXTENDS Blaum, FiniteSets
CONSTANT MAXT
VARIABLES t, x, y, steps
M == (t * t + 1) \div 2
Init == t \in {k \in 1..MAXT : k % 2 = 1} /\ x = 0 /\ y = 0 /\ steps = 0
Go(dx, dy) == steps < t - 1 /\ steps' = steps + 1 /\ x' = x + dx /\ y' = y + dy /\ UNCHANGED t
Next == Go(1, 0) \/ Go(-1, 0) \/ Go(0, 1) \/ Go(0, -1)
Spec == Init /\ [][Next]_<<t, x, y, steps>>
ShiftIsT == Shift(M) = t /\ Perfect(M)
\* wherever it begins, as only the displacement matters
OtherPacket == (x # 0 \/ y # 0) => Packet(x, y, M) # 0
OnlyTheDisplacementMatters == (Packet(x + 3, y + 7, M) - Packet(3, 7, M)) % M = Packet(x, y, M)
\* all packets are in any row and in any column of m cells
RowsAndColumns == steps = 0 => /\ Cardinality({Packet(i, 0, M) : i \in 0..(M - 1)}) = M
                               /\ Cardinality({Packet(0, i, M) : i \in 0..(M - 1)}) = M
\* t steps away, there is one of the same packet: no other number of packets of this kind would do with less
Tight == steps = 0 => \E i \in 0..t : \E d \in {i, -i} : \E e \in {t - i, i - t} : Packet(d, e, M) = 0
=============================================================================
