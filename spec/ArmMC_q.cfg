CONSTANTS Regs = {0, 13, 15}
 Conds = {0, 14}
SPECIFICATION Spec
INVARIANTS OperationStays ClassKnown Cover NoRegIsAlone Memory PcIsAJump LinkJumps Symmetric
CHECK_DEADLOCK FALSE
