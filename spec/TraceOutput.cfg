SPECIFICATION TSpec
INVARIANT Closed
CHECK_DEADLOCK FALSE
