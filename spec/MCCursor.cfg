INIT Init
NEXT Next
INVARIANT Once
PROPERTY FailStays
PROPERTY Next1
CHECK_DEADLOCK FALSE
