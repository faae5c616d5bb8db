INIT Init
NEXT Next
INVARIANT Props
CHECK_DEADLOCK FALSE
