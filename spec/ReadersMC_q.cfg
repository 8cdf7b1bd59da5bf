CONSTANTS MAXL = 5
          ADDR = {4, 8, 12}
SPECIFICATION Spec
INVARIANTS ElfRight ListRight ElfPartition ListPartition BeginsThere
CHECK_DEADLOCK FALSE
