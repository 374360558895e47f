INIT Init
NEXT Next
CONSTANT K = 2
CONSTANT Over = FALSE
INVARIANTS Inside Stationary
CHECK_DEADLOCK FALSE
