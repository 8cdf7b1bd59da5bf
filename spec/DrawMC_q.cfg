SPECIFICATION Spec
CONSTANTS Names = {"a", "a-b", "b"}
 MaxEdges = 4
INVARIANTS NothingElse EachOnce AllDrawn AsMany NoneForgotten
PROPERTIES Ends
CHECK_DEADLOCK FALSE
