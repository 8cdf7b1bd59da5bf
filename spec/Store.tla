------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* P28: a program stored as if it had lost the first fifth of its packets. *)
(* Packets have 16 bytes; chunks of two bits are dealt to them following   *)
(* the successive packing.                                                 *)
(***************************************************************************)
EXTENDS Corruption
PACKET == 16       \* bytes
WIDTH == 2         \* bits
Packets(words) == (words * 4 + PACKET - 1) \div PACKET
Lost(words) == 0..((Packets(words) \div 5) - 1)
\* the lost chunks of the program, by their first bit
Chunks(words) == LET order == SPOrder(Packets(words)) IN LostChunks(order, WIDTH, words * 32, Lost(words))
\* The first bit of each is cleared, unless the chunk ends the word (it is announced in two pieces, see P04)
Cleared(words) == {b \in Chunks(words) : b % 32 # 30}
MayBeCleared(words) == Chunks(words)
=============================================================================
