SPECIFICATION Spec
CONSTANT MaxTasks = 4
INVARIANTS OutcomeIsSearchs NothingLeft KeepsPromise OneQueue NeverTakesFromEmpty
PROPERTY Returns
CHECK_DEADLOCK FALSE
