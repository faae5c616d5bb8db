INIT EInit
NEXT ENext
INVARIANT Inv
CHECK_DEADLOCK FALSE
