INIT Init
NEXT Next
CONSTANT Tol = "1"
CONSTANT Bug = FALSE
INVARIANTS CachesCurrent ErrorCurrent Certified
CHECK_DEADLOCK FALSE
