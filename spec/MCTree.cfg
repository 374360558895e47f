INIT Init
NEXT Next
INVARIANT LeafWise
CHECK_DEADLOCK FALSE
