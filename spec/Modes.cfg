INIT Init
NEXT Next
CONSTANTS Lanes = {1, 2, 3}
 MaxIter = 3
 MaxInner = 3
 Mask = TRUE
 Extra = 0
INVARIANTS SameAsSolo RoundsBounded Emit
CHECK_DEADLOCK FALSE
