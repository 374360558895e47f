INIT Init
NEXT Next
CONSTANT K = 8
CONSTANT Bug = FALSE
INVARIANTS InBox TGrows StepsFloor Rate
PROPERTIES Descends CDDescends
CHECK_DEADLOCK FALSE
