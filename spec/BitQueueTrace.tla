--------------------------- MODULE BitQueueTrace ---------------------------
EXTENDS VFTrace, Words
VARIABLES c, l, q
WORDSIZE == 32
BQ == INSTANCE BitQueue

X == Cases[c]
E == X.ops[l]
\* The packing of bits in words
Packed(words) == \A i \in 1..Len(q) : /\ ((i - 1) \div 32) + 1 <= Len(words)
                                      /\ Bit(words[((i - 1) \div 32) + 1], (i - 1) % 32) = q[i]
RestIsZero(words) == \A b \in Len(q)..(Len(words) * 32 - 1) : Bit(words[(b \div 32) + 1], b % 32) = 0

After == \* what the queue says of itself once the operation is done
    /\ Req(X, "EmptyWhenNothingIsLeft", E.empty = (q' = <<>>))
EnqStep == /\ E.op = "e" /\ BQ!Enqueue(BitsOf(E.value), E.at, E.w) /\ After
DeqStep == /\ E.op = "d" /\ BQ!Dequeue(E.w) /\ After
           /\ Req(X, "FirstInFirstOut", BitsOf(E.result) = BQ!Dequeued(BitsOf(E.value), E.at, E.w))
OverStep == /\ E.op = "d" /\ BQ!Overdraw(E.w) /\ After
            /\ Req(X, "WhatIsLeftThenZeros", BitsOf(E.result) = BQ!Overdrawn(BitsOf(E.value), E.at, E.w))
GetStep == /\ E.op = "b" /\ UNCHANGED q
           /\ Req(X, "BytesAreTheBitsInOrder", Packed(E.words) /\ RestIsZero(E.words))
Raised == /\ E.raised /\ Fail(X, "OperationCompletes") 
Op == IF E.raised THEN Raised /\ UNCHANGED q ELSE EnqStep \/ DeqStep \/ OverStep \/ GetStep

\* After an operation that raised the rest of the case says nothing
Step == /\ c <= Len(Cases) /\ l <= Len(X.ops) /\ Op
        /\ IF E.raised THEN l' = Len(X.ops) + 1 ELSE l' = l + 1
        /\ UNCHANGED c
NextCase == /\ c <= Len(Cases) /\ l = Len(X.ops) + 1 /\ c' = c + 1 /\ l' = 1 /\ q' = <<>>
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ UNCHANGED <<l, q>> /\ Done(Len(Cases))
TraceInit == c = 1 /\ l = 1 /\ BQ!BQInit
TraceNext == Step \/ NextCase \/ Finish
=============================================================================
