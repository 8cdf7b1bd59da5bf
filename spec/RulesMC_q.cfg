CONSTANTS NB = 1
          NC = 2
          PASSES = 2
SPECIFICATION Spec
INVARIANTS AsDefined Bounded AmongEquals AfterFlags
PROPERTIES PassesKeepTheirs Answers Settles
CHECK_DEADLOCK FALSE
