INIT Init
NEXT Next
INVARIANT Best
CHECK_DEADLOCK FALSE
