----------------------------- MODULE BitsTrace -----------------------------
(***************************************************************************)
(* P27: the operations on the bits of a word and the fields of ARM.        *)
(***************************************************************************)
EXTENDS VFTrace, Words
VARIABLES c
X == Cases[c]

\* the bits lo..hi of one word, from dest on in the other
Legal(lo, hi, dest) == 0 <= lo /\ lo <= hi /\ hi < 32 /\ 0 <= dest /\ dest + hi - lo < 32
Copied(from, to, lo, hi, dest, result) ==
    \A b \in 0..31 : Bit(result, b) = IF b \in dest..(dest + hi - lo) THEN Bit(from, b - dest + lo) ELSE Bit(to, b)
JudgeCopy ==
    IF Legal(X.lo, X.hi, X.dest)
    THEN /\ Req(X, "Completes", ~X.raised)
         /\ ~X.raised => Req(X, "CopiedAndNothingElse", Copied(X.from, X.to, X.lo, X.hi, X.dest, X.result))
    ELSE Req(X, "RefusesWhatIsNotARange", X.raised)
JudgeRange ==       \* set, are_on, check_range: X.lo, X.hi
    IF 0 <= X.lo /\ X.lo <= X.hi /\ X.hi < 32
    THEN /\ Req(X, "Completes", ~X.raised)
         /\ ~X.raised =>
            /\ Req(X, "TheBitsOfTheRange", \A b \in 0..31 : Bit(X.mask, b) = IF b \in X.lo..X.hi THEN 1 ELSE 0)
            /\ Req(X, "AnyOfTheRange", X.any = (\E b \in X.lo..X.hi : Bit(X.value, b) = 1))
    ELSE Req(X, "RefusesWhatIsNotARange", X.raised)
JudgeBit == /\ Req(X, "OneBit", X.on = 2^X.bit)
            /\ Req(X, "IsOn", X.is = (Bit(X.value, X.bit) = 1))
Fields == [modify_cond |-> <<28, 31>>, modify_opcode |-> <<21, 24>>, modify_rn |-> <<16, 19>>, modify_rd |-> <<12, 15>>,
           modify_rs |-> <<8, 11>>, modify_rm |-> <<0, 3>>]
JudgeField == Req(X, "TheFieldAndNothingElse",
                  LET f == Fields[X.of] IN Copied(X.new, X.value, 0, f[2] - f[1], f[1], X.result))
\* the immediate of a load or store has 12 bits, that of the others 8
JudgeImmediate ==
    Req(X, "TheFieldAndNothingElse",
        LET load == Bit(X.value, 27) = 0 /\ Bit(X.value, 26) = 1 /\ Bit(X.value, 25) = 0
        IN Copied(X.new, X.value, 0, IF load THEN 11 ELSE 7, 0, X.result))
\* The bytes of a word the other way around
JudgeEndian ==
    /\ Req(X, "BytesTurnedAround", \A b \in 0..31 : Bit(X.result, b) = Bit(X.value, 8 * (3 - b \div 8) + (b % 8)))
    /\ Req(X, "TextToo", X.text)
Step == /\ c <= Len(Cases) /\ c' = c + 1
        /\ CASE X.j = "copy" -> JudgeCopy [] X.j = "range" -> JudgeRange [] X.j = "bit" -> JudgeBit
             [] X.j = "field" -> JudgeField [] X.j = "immediate" -> JudgeImmediate [] X.j = "endian" -> JudgeEndian
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
