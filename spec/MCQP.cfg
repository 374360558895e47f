INIT Init
NEXT Next
CONSTANT Emit = FALSE
INVARIANTS Exclusive Farkas Unbounded Minimal Fixpoint CoordinateRest Measure
CHECK_DEADLOCK FALSE
