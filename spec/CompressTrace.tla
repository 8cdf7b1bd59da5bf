--------------------------- MODULE CompressTrace ---------------------------
EXTENDS VFTrace, Compress
VARIABLES c
X == Cases[c]

\* Words are packed little endian and the first bit of the stream is the highest of the first byte
ByteBits(b) == [i \in 1..8 |-> (b \div 2^(8 - i)) % 2]
RECURSIVE StreamOf(_)
StreamOf(bytes) == IF bytes = <<>> THEN <<>> ELSE ByteBits(Head(bytes)) \o StreamOf(Tail(bytes))
\* X.bytes: those of the words, one after the other
Stream == StreamOf(X.bytes)
Result == StreamOf(X.result)
Gone == Removed(X.errors, 32, X.shift)
Zeros(s) == \A i \in DOMAIN s : s[i] = 0

JudgeShift ==
    LET left == Left(Stream, Gone) IN
    /\ Req(X, "TheBitsLeftInOrder", Len(Result) >= Len(left) /\ SubSeq(Result, 1, Len(left)) = left)
    /\ Req(X, "PaddedToAByte", Len(Result) < Len(left) + 8 /\ Zeros(SubSeq(Result, Len(left) + 1, Len(Result))))
    /\ Req(X, "DataUntouched", X.same)
\* The swap compressor clears the first bit of each piece and leaves the rest where it is
First == {X.errors[i][1] * 32 + X.errors[i][2] : i \in {i \in DOMAIN X.errors : Len(X.errors[i]) = 2}}
JudgeSwap ==
    /\ Req(X, "SameSize", Len(Result) = Len(Stream))
    /\ Req(X, "OnlyThoseBitsAreCleared",
           Len(Result) = Len(Stream) => \A i \in DOMAIN Stream : Result[i] = IF i - 1 \in First THEN 0 ELSE Stream[i])
    /\ Req(X, "DataUntouched", X.same)

Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ IF X.j = "shift" THEN JudgeShift ELSE JudgeSwap
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
