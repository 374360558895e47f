CONSTANT Bug = FALSE
CONSTANT Cs <- Small
INIT Init
NEXT Next
INVARIANT IsSolution Right
CHECK_DEADLOCK FALSE
