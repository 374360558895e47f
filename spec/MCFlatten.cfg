INIT Init
NEXT Next
CONSTANT Emit = FALSE
INVARIANTS RoundTrip Jacobian Exact
CHECK_DEADLOCK FALSE
