SPECIFICATION Spec
CONSTANTS Names = {"a", "a-b", "b"}
 MaxEdges = 5
INVARIANTS NothingElse EachOnce AllDrawn AsMany NoneForgotten
PROPERTIES Ends
CHECK_DEADLOCK FALSE
