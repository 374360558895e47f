INIT Init
NEXT Next
CONSTANT M = 2
CONSTANT F = 2
CONSTANT K = 6
CONSTANT Bug = FALSE
INVARIANTS Fresh GramFresh MixOnlyFull Minimal AnyOrder AffineExact
CHECK_DEADLOCK FALSE
