INIT Init
NEXT Next
INVARIANT Facts
CHECK_DEADLOCK FALSE
