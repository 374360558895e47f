INIT Init
NEXT Next
CONSTANTS N = 4
 Leafwise = FALSE
INVARIANTS Packs Commutes
CHECK_DEADLOCK FALSE
