SPECIFICATION Spec
INVARIANT Promised
PROPERTY Ends
CHECK_DEADLOCK FALSE
