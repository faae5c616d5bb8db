INIT Init
NEXT Next
INVARIANT Props
INVARIANT NoStuck
CHECK_DEADLOCK FALSE
