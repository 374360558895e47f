CONSTANT Bug = FALSE
INIT Init
NEXT Next
INVARIANT IsAdjoint FirstOrder NonSing
CHECK_DEADLOCK FALSE
