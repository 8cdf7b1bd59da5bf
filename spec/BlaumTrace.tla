----------------------------- MODULE BlaumTrace -----------------------------
EXTENDS VFTrace, Blaum
VARIABLES c
X == Cases[c]
Abs(v) == IF v < 0 THEN -v ELSE v
M == X.packets
Cells == (1..X.height) \X (1..X.width)
Judge ==
    /\ Req(X, "RefusedWithoutSize", X.refused = X.unknown)
    /\ Req(X, "TheSameWhenAskedAgain", X.again = X.rows)
    /\ X.refused \/
       /\ Req(X, "Rows", Len(X.rows) = X.height)
       /\ Req(X, "Columns", \A y \in DOMAIN X.rows : Len(X.rows[y]) = X.width)
       /\ (Len(X.rows) = X.height /\ (\A y \in DOMAIN X.rows : Len(X.rows[y]) = X.width)) =>
          /\ Req(X, "APacketOfThose", \A p \in Cells : X.rows[p[1]][p[2]] \in 0..(M - 1))
          /\ Req(X, "InTurnsAndShifted", \A p \in Cells : X.rows[p[1]][p[2]] = Packet(p[2] - 1, p[1] - 1, M))
          /\ Req(X, "CellsOfAPacketAreApart",
                 Perfect(M) => \A p, q \in Cells : (p # q /\ X.rows[p[1]][p[2]] = X.rows[q[1]][q[2]]) =>
                                                     Abs(p[1] - q[1]) + Abs(p[2] - q[2]) >= Shift(M))
Step == /\ c <= Len(Cases) /\ c' = c + 1 /\ Judge
Finish == c = Len(Cases) + 1 /\ c' = c + 1 /\ Done(Len(Cases))
TraceInit == c = 1
TraceNext == Step \/ Finish
=============================================================================
