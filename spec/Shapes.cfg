INIT Init
NEXT Next
CONSTANTS N = 3
 Leafwise = FALSE
INVARIANTS Packs Commutes Emit
CHECK_DEADLOCK FALSE
