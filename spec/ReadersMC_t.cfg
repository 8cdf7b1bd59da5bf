CONSTANTS MAXL = 7
          ADDR = {4, 8}
SPECIFICATION Spec
INVARIANTS ElfRight ListRight ElfPartition ListPartition BeginsThere
CHECK_DEADLOCK FALSE
