CONSTANT MAXT = 11
SPECIFICATION Spec
INVARIANTS ShiftIsT OtherPacket OnlyTheDisplacementMatters RowsAndColumns Tight
CHECK_DEADLOCK FALSE
