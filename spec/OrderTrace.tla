----------------------------- MODULE OrderTrace -----------------------------
(***************************************************************************)
(* P03: the orders the code builds against the successive packing.         *)
(***************************************************************************)
EXTENDS VFTrace, Interleave
VARIABLES c
X == Cases[c]

JudgeOrder ==
    LET rows == SPRows(X.n) IN
    /\ Req(X, "Permutation", Len(X.flat) = X.n /\ IsOrder(X.flat))
    /\ Req(X, "RowsAreThoseOfTheSuccessivePacking", X.rows = rows)
    /\ Req(X, "FlatIsTheRowsOneAfterTheOther", X.flat = Concat(rows))
    /\ Req(X, "TheSameWhenAskedAgain", X.flatAgain = X.flat /\ X.rowsAgain = X.rows)

\* A square on its own, and what it is meant for: the 4^k packets of any burst come from as many blocks
JudgeSquare ==
    LET side == 2^X.m
        M(r, k) == X.matrix[r + 1][k + 1]
        Square == Len(X.matrix) = side /\ \A r \in 1..side : Len(X.matrix[r]) = side
    IN
    /\ Req(X, "Square", Square)
    /\ Req(X, "TheSameWhenAskedAgain", X.matrixAgain = X.matrix)
    /\ Square => Req(X, "SuccessivePacking", \A r, k \in 0..(side - 1) : M(r, k) = SP(X.m, r, k))
    /\ Square => Req(X, "DispersesBursts",
          \A k \in 0..X.m :
             LET b == 2^(X.m - k)
                 Block(x, y) == {M(i, j) : i \in (x*b)..((x+1)*b - 1), j \in (y*b)..((y+1)*b - 1)}
             IN \* no two packets of a block are closer than 4^k, i.e. they are all the same modulo 4^k
                \A x, y \in 0..(2^k - 1) : Cardinality({v % (4^k) : v \in Block(x, y)}) = 1)

Step == /\ c <= Len(Cases)
        /\ IF X.k = "order" THEN JudgeOrder ELSE JudgeSquare
        /\ c' = c + 1
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
