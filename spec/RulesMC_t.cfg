CONSTANTS NB = 2
          NC = 1
          PASSES = 2
SPECIFICATION Spec
INVARIANTS AsDefined Bounded AmongEquals AfterFlags
PROPERTIES PassesKeepTheirs Answers Settles
CHECK_DEADLOCK FALSE
