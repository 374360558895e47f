INIT Init
NEXT Next
INVARIANTS Algebra Vectors Solve
CHECK_DEADLOCK FALSE
