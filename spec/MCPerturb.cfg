CONSTANT Bug = FALSE
CONSTANT Steps = 160
INIT Init
NEXT Next
INVARIANT Unbiased
CHECK_DEADLOCK FALSE
