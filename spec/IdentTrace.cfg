SPECIFICATION VSpec
INVARIANT Judged
CHECK_DEADLOCK FALSE
