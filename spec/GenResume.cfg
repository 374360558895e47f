INIT Init
NEXT Next
CONSTANTS Jobs = {1, 2}
 MaxP = 5
 M = 2
 L = 7
 Warm = TRUE
 DropIter = FALSE
INVARIANTS Invisible Consistent Emit
CHECK_DEADLOCK FALSE
