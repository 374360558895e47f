INIT Init
NEXT Next
CONSTANT K = 3
CONSTANT Over = FALSE
INVARIANTS Inside Stationary
CHECK_DEADLOCK FALSE
