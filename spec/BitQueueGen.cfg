INIT GInit
NEXT GNext
CONSTANT DEPTH = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
