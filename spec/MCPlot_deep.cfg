CONSTANTS
    Size = 6
    Cut = 4
    KeepEdge = FALSE
SPECIFICATION Spec
INVARIANTS OnlyEdges AtMostOnce AllDrawn
CHECK_DEADLOCK FALSE
