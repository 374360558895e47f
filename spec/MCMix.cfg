INIT Init
NEXT Next
CONSTANT M = 3
CONSTANT F = 1
CONSTANT K = 5
CONSTANT Bug = FALSE
INVARIANTS Fresh GramFresh MixOnlyFull Minimal AnyOrder AffineExact
CHECK_DEADLOCK FALSE
