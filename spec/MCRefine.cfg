INIT Init
NEXT Next
CONSTANT Bug = FALSE
CONSTANT T = 10
INVARIANTS IsResidual Exact Converges
PROPERTY Contracts
CHECK_DEADLOCK FALSE
