CONSTANTS
    SizeX = 7
    SizeY = 0
    Periodic = TRUE
    F = 2
    MaxPos = 4
    Least = 2
    AnyDims = TRUE
SPECIFICATION Spec
INVARIANTS Partition Components Refines Reported GeometricDims LineGraph Names Averages
PROPERTY Finishes
CHECK_DEADLOCK FALSE
