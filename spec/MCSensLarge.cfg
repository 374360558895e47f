CONSTANT Bug = FALSE
CONSTANT Cs <- Large
INIT Init
NEXT Next
INVARIANT IsSolution Right
CHECK_DEADLOCK FALSE
