INIT Init
NEXT Next
INVARIANT ReadsBack
INVARIANT Framed
INVARIANT Progress
CHECK_DEADLOCK FALSE
