INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Smaller
CHECK_DEADLOCK FALSE
