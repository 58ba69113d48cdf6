CONSTANTS
    Size = 3
    Cut = 4
    KeepEdge = FALSE
SPECIFICATION Spec
INVARIANTS OnlyEdges AtMostOnce AllDrawn
PROPERTY Ends
CHECK_DEADLOCK FALSE
