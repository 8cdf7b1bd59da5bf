----------------------------- MODULE Corruption -----------------------------
(***************************************************************************)
(* From lost packets to the bits they carried (P04), and from the bits to  *)
(* the candidates of each instruction (P06, P07).                          *)
(***************************************************************************)
EXTENDS Interleave, Words

\* Bits are numbered along the message: the bit b of the word w is 32 w + b.
\* The chunks of the lost packets, by their first bit
LostChunks(order, width, total, lost) ==
    {b \in 0..(total - 1) : b % width = 0 /\ PacketOf(order, b \div width) \in lost}

\* The bits of a chunk
Exact(b, width) == b..(b + width - 1)

(***************************************************************************)
(* KNOWN DEVIATION (P04, key ChunkAtTheEndOfAWord).  A chunk that has the  *)
(* last bit of a word is announced without it and with one bit too many of *)
(* the next word.  A test of the repository asks for this.                 *)
(***************************************************************************)
AtTheEnd(b, width) == (b % 32) + width >= 32
LastBit(b) == (b \div 32) * 32 + 31
Deviant(b, width) == IF AtTheEnd(b, width) THEN (b..(b + width)) \ {LastBit(b)} ELSE Exact(b, width)

\* A set of bits is what is expected if each lost chunk is there, exactly or with the deviation, and nothing else is
ExactLoss(chunks, width) == UNION {Exact(b, width) : b \in chunks}
DeviantLoss(chunks, width) == UNION {Deviant(b, width) : b \in chunks}
Explained(bits, chunks, width) ==
    /\ \A b \in chunks : Exact(b, width) \subseteq bits \/ Deviant(b, width) \subseteq bits
    /\ bits \subseteq ExactLoss(chunks, width) \cup DeviantLoss(chunks, width)

\* What an entry of the prediction covers: <<word, bit>> or <<word, bit, how many>>
Covered(entry, width) ==
    LET f == entry[1] * 32 + entry[2] IN
    IF Len(entry) = 2 THEN f..(f + width - 1) ELSE f..(f + entry[3] - 1)

\* The words that are v but for some of the bits of F: all the ways of flipping them.
\* For a set F of bits and a set of words V.
RECURSIVE Span(_, _)
Span(V, F) == IF F = {} THEN V
              ELSE LET b == CHOOSE b \in F : TRUE
                   IN  Span(V \cup {Flip(v, b) : v \in V}, F \ {b})

\* The bits of the word w of the message, out of a set of bits
InWord(bits, w) == {b - 32 * w : b \in {x \in bits : x \div 32 = w}}
=============================================================================
