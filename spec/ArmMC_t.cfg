CONSTANTS Regs = {0, 1, 4, 5, 13, 14, 15}
 Conds = {0, 1, 10, 14}
SPECIFICATION Spec
INVARIANTS OperationStays ClassKnown Cover NoRegIsAlone Memory PcIsAJump LinkJumps Symmetric
CHECK_DEADLOCK FALSE
