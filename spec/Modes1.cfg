INIT Init
NEXT Next
CONSTANTS Lanes = {1}
 MaxIter = 5
 MaxInner = 3
 Mask = TRUE
 Extra = 2
INVARIANTS SameAsSolo RoundsBounded
CHECK_DEADLOCK FALSE
