CONSTANT Bug = FALSE
CONSTANT Steps = 700
INIT Init
NEXT Next
INVARIANT Unbiased
CHECK_DEADLOCK FALSE
