------------------------------- MODULE CspMC -------------------------------
(***************************************************************************)
(* The search: an address at a time, going back when nothing is left, with *)
(* the candidates that can no longer be picked hidden meanwhile.  Several  *)
(* constraints (some keys each) hide candidates on their own; hiding twice *)
(* what is hidden must not matter.  Whatever the order of the addresses,   *)
(* all the solutions are found, once each.                                 *)
(***************************************************************************)
EXTENDS Csp, FiniteSetsExt
CONSTANTS ADDRS, CANDS, KEYSA, KEYSB     \* keys of one constraint and of the other
VARIABLES prog, stats, order, level, tried, picked, hidden, found
vars == <<prog, stats, order, level, tried, picked, hidden, found>>

KEYS == KEYSA \cup KEYSB
Cand == [ignore : {FALSE}, keys : {a \cup b : a \in {{k} : k \in KEYSA}, b \in SUBSET KEYSB}]
Undef == [ignore |-> TRUE, keys |-> {}]
Lists == UNION {[1..n -> Cand \cup {Undef}] : n \in 1..CANDS}
Stat(ks) == LET fs == [ks -> 0..ADDRS] IN fs

Init == /\ prog \in [1..ADDRS -> Lists]
        /\ stats \in [KEYS -> 0..2]
        /\ order \in {p \in [1..ADDRS -> 1..ADDRS] : \A i, j \in 1..ADDRS : i # j => p[i] # p[j]}
        /\ level = 1 /\ tried = [i \in 1..ADDRS |-> 0]
        /\ picked = [i \in {} |-> 0]
        /\ hidden = [i \in 1..ADDRS |-> {}]        \* by level: the <<address, candidate>> hidden when trying there
        /\ found = {}

PickedNow(p) == [a \in DOMAIN p |-> prog[a][p[a]]]
Fits(p) == \A k \in KEYS : Has(PickedNow(p), k) <= stats[k]
\* what a constraint (a set of keys) hides once p is picked
Hides(p, ks) == {<<a, i>> \in (1..ADDRS) \X (1..CANDS) :
                    /\ a \notin DOMAIN p /\ i \in DOMAIN prog[a] /\ ~prog[a][i].ignore
                    /\ \E k \in ks : k \in prog[a][i].keys /\ Has(PickedNow(p), k) + 1 > stats[k]}
HiddenNow(l) == UNION {hidden[m] : m \in 1..(l - 1)}

\* Try the next candidate of the address of this level
Try == /\ level \in 1..ADDRS
       /\ LET a == order[level]
              i == tried[level] + 1
              p == [b \in (DOMAIN picked \cup {a}) |-> IF b = a THEN i ELSE picked[b]]
              hides == Hides(p, KEYSA) \cup Hides(p, KEYSB)
              left(b) == {j \in DOMAIN prog[b] : <<b, j>> \notin HiddenNow(level) \cup hides}
          IN
          /\ i <= Len(prog[a])
          /\ tried' = [tried EXCEPT ![level] = i]
          /\ IF <<a, i>> \in HiddenNow(level) \/ ~Fits(p) \/ \E b \in (1..ADDRS) \ DOMAIN p : left(b) = {}
             THEN UNCHANGED <<level, picked, hidden, found>>
             ELSE IF level = ADDRS
             THEN /\ found' = IF \A k \in KEYS : Has(PickedNow(p), k) = stats[k] THEN found \cup {p} ELSE found
                  /\ UNCHANGED <<level, picked, hidden>>
             ELSE /\ picked' = p /\ level' = level + 1
                  /\ hidden' = [hidden EXCEPT ![level] = hides]
                  /\ UNCHANGED found
       /\ UNCHANGED <<prog, stats, order>>
\* Nothing is left to try there
Back == /\ level \in 1..ADDRS /\ tried[level] = Len(prog[order[level]])
        /\ level' = level - 1
        /\ tried' = [tried EXCEPT ![level] = 0]
        /\ picked' = [a \in (DOMAIN picked \ (IF level > 1 THEN {order[level - 1]} ELSE {})) |-> picked[a]]
        /\ hidden' = IF level > 1 THEN [hidden EXCEPT ![level - 1] = {}] ELSE hidden
        /\ UNCHANGED <<prog, stats, order, found>>
Next == Try \/ Back
Spec == Init /\ [][Next]_vars

SetStats == [k \in {k \in KEYS : TRUE} |-> stats[k]]
OnlySolutions == \A p \in found : p \in Solutions(prog, SetStats)
ChoicesAreOneByOne == level = 1 => OneByOne(prog) = AllChoices(prog)
AllSolutions == level = 0 => found = Solutions(prog, SetStats)
=============================================================================
