CONSTANTS
    Searches = {1, 2, 3}
    Objects = {1, 2}
    NumSteps = 2
    Protocol = "copy"
SPECIFICATION Spec
INVARIANTS Unaffected ArgsKept
PROPERTY EndedKept
CHECK_DEADLOCK FALSE
