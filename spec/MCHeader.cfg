INIT HInit
NEXT HNext
INVARIANT Inv
CHECK_DEADLOCK FALSE
