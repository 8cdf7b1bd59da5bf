------------------------------ MODULE StoreMC ------------------------------
(***************************************************************************)
(* Programs of any size: how their bits share the packets, dealt one chunk *)
(* after the other, and what is lost.                                      *)
(***************************************************************************)
EXTENDS Store
CONSTANT MAX
VARIABLES words, dealt, carried, lost
vars == <<words, dealt, carried, lost>>
N == Packets(words)
Order == SPOrder(N)
Start(w) == /\ words = w /\ dealt = 0 /\ lost = {}
            /\ carried = [p \in 0..(Packets(w) - 1) |-> 0]
Init == \E w \in 1..MAX : Start(w)
Deal == /\ dealt < (words * 32) \div WIDTH
        /\ dealt' = dealt + 1
        /\ LET p == Order[(dealt % N) + 1] IN
           /\ carried' = [carried EXCEPT ![p] = @ + 1]
           /\ lost' = IF p \in Lost(words) THEN lost \cup {dealt * WIDTH} ELSE lost
        /\ UNCHANGED words
Next == Deal
Spec == Init /\ [][Next]_vars
\* No packet is overfull, and all of them share alike
Fits == \A p \in DOMAIN carried : carried[p] <= (PACKET * 8) \div WIDTH
Fair == \A p, q \in DOMAIN carried : carried[p] - carried[q] \in -1..1
AllDealt == dealt = (words * 32) \div WIDTH
LossIsTheOneDealt == AllDealt => lost = Chunks(words)
\* At most a fifth, and one chunk for each packet, is lost
AFifth == AllDealt => Cardinality(lost) * 5 <= dealt + 5 * N
=============================================================================
