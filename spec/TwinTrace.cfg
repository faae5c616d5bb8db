INIT Init
NEXT Next
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
