CONSTANTS
    SizeX = 5
    SizeY = 3
    Periodic = TRUE
    F = 1
    MaxPos = 4
    Least = 2
    AnyDims = FALSE
SPECIFICATION Spec
INVARIANTS Partition Components Refines Reported GeometricDims LineGraph Names Averages
PROPERTY Finishes
CHECK_DEADLOCK FALSE
