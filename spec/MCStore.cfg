CONSTANTS
    Objects = {1, 2, 3}
    MaxOps = 7
    Runs = TRUE
    LoseRunning = FALSE
SPECIFICATION Spec
INVARIANTS Distinct Seen FileComplete Conserved OnceWithoutLoad
CHECK_DEADLOCK FALSE
