SPECIFICATION Spec
CONSTANT MaxIters = 5
CONSTANT Conds = {"armijo", "goldstein", "wolfe", "strong-wolfe"}
INVARIANTS Bounded DoneIff EarliestOnly FailedIff Exclusive
PROPERTY Ends
CHECK_DEADLOCK FALSE
