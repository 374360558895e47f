INIT Init
NEXT Next
CONSTANTS Lanes = {1, 2, 3, 4}
 MaxIter = 4
 MaxInner = 3
 Mask = TRUE
 Extra = 0
INVARIANTS SameAsSolo RoundsBounded
CHECK_DEADLOCK FALSE
