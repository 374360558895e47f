INIT Init
NEXT Next
CONSTANT Emit = TRUE
CHECK_DEADLOCK FALSE
