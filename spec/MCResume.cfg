INIT Init
NEXT Next
CONSTANTS Jobs = {1, 2}
 MaxP = 4
 M = 2
 L = 9
 Warm = TRUE
 DropIter = FALSE
INVARIANTS Invisible Consistent
VIEW View
CHECK_DEADLOCK FALSE
