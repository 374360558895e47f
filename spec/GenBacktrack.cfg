SPECIFICATION Spec
CONSTANT MaxIters = 3
CONSTANT Conds = {"armijo", "goldstein", "wolfe", "strong-wolfe"}
INVARIANT Gen
CHECK_DEADLOCK FALSE
