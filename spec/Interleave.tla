----------------------------- MODULE Interleave -----------------------------
(***************************************************************************)
(* Interleaving a message over packets, loosing some, and putting it back  *)
(* together.  A message is a sequence of chunks of a few bits; an order    *)
(* is a permutation of the packets 0..N-1.  The chunks are dealt to the    *)
(* packets turn by turn following the order.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(***************************************************************************)
(* The declarative part: who carries what, what can be recovered.          *)
(***************************************************************************)
IsOrder(order) == {order[i] : i \in DOMAIN order} = 0..(Len(order) - 1)

\* The packet that carries the chunk j (chunks are counted from 0)
PacketOf(order, j) == order[(j % Len(order)) + 1]

\* The turn of the packet p in the order, from 0
TurnOf(order, p) == (CHOOSE i \in DOMAIN order : order[i] = p) - 1

\* How many of total chunks go in the packet p, and which one is its k-th (from 0)
CountOf(order, total, p) ==
    LET t == TurnOf(order, p) IN
    IF t >= total THEN 0 ELSE (total - t - 1) \div Len(order) + 1
KthOf(order, p, k) == TurnOf(order, p) + k * Len(order)

\* Rounds that can be told from what was received: up to the longest of the received packets
Rounds(order, total, lost) ==
    LET cs == {CountOf(order, total, p) : p \in (0..(Len(order) - 1)) \ lost}
    IN  CHOOSE m \in cs : \A x \in cs : x <= m

\* Chunks whose loss has to be reported, and those that may be (the packets of the last
\* round that are not there may or may not have had a chunk for it)
MustReport(order, total, lost) ==
    {j \in 0..(total - 1) : /\ PacketOf(order, j) \in lost
                            /\ j < Rounds(order, total, lost) * Len(order)}
MayReport(order, total, lost) ==
    {j \in 0..(Rounds(order, total, lost) * Len(order) - 1) : PacketOf(order, j) \in lost}

(***************************************************************************)
(* The successive packing of Shi and Zhang.  SP(m) is a 2^m x 2^m matrix   *)
(* with the numbers 0..4^m-1:                                              *)
(*                                  4 S     4 S + 2                        *)
(*       SP(0) = 0     SP(m+1) =                     ,   S = SP(m)         *)
(*                                4 S + 3   4 S + 1                        *)
(***************************************************************************)
RECURSIVE SP(_, _, _)
SP(m, row, col) ==
    IF m = 0 THEN 0
    ELSE LET h == 2^(m - 1)
             q == CASE row <  h /\ col <  h -> 0
                    [] row <  h /\ col >= h -> 2
                    [] row >= h /\ col <  h -> 3
                    [] row >= h /\ col >= h -> 1
         IN  4 * SP(m - 1, row % h, col % h) + q

\* Any number of packets is decomposed in squares, the largest first: <<exponent, first packet>>
RECURSIVE Tiles(_, _, _)
Tiles(n, first, m) ==
    IF n = 0 THEN <<>>
    ELSE IF 4^m > n THEN Tiles(n, first, m - 1)
    ELSE <<(<<m, first>>)>> \o Tiles(n - 4^m, first + 4^m, m)

RECURSIVE Log4(_)
Log4(n) == IF n < 4 THEN 0 ELSE 1 + Log4(n \div 4)

\* The rows of the squares in turns: row 0 of each, row 1 of each that has it...
RECURSIVE RowsFrom(_, _, _)
RowsFrom(tiles, r, i) ==
    IF r >= 2^(tiles[1][1]) THEN <<>>
    ELSE IF i > Len(tiles) THEN RowsFrom(tiles, r + 1, 1)
    ELSE IF r >= 2^(tiles[i][1]) THEN RowsFrom(tiles, r, i + 1)
    ELSE << [c \in 1..(2^(tiles[i][1])) |-> tiles[i][2] + SP(tiles[i][1], r, c - 1)] >> \o RowsFrom(tiles, r, i + 1)
SPRows(n) == RowsFrom(Tiles(n, 0, Log4(n)), 0, 1)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2 IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h + 1, Len(ss)))
SPOrder(n) == Concat(SPRows(n))

\* Whichever 4^k consecutive packets are lost, they come from 4^k different blocks of the matrix
SPDisperses(m) ==
    LET side == 2^m
        cell == [v \in 0..(4^m - 1) |-> CHOOSE rc \in (0..(side-1)) \X (0..(side-1)) : SP(m, rc[1], rc[2]) = v]
    IN  \A k \in 0..m : \A v \in 0..(4^m - 4^k) :
          LET b == 2^(m - k)
              blocks == {<<cell[u][1] \div b, cell[u][2] \div b>> : u \in v..(v + 4^k - 1)}
          IN  Cardinality(blocks) = 4^k
=============================================================================
