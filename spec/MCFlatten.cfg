INIT Init
NEXT Next
INVARIANT RecOK
INVARIANT AllOnce
CHECK_DEADLOCK FALSE
