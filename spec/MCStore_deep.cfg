CONSTANTS
    Objects = {1, 2, 3, 4}
    MaxOps = 11
    Runs = TRUE
    LoseRunning = FALSE
SPECIFICATION Spec
INVARIANTS Distinct Seen FileComplete Conserved OnceWithoutLoad
CHECK_DEADLOCK FALSE
