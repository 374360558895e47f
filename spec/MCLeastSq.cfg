INIT Init
NEXT Next
CONSTANT K = 4
CONSTANT Bug = FALSE
INVARIANTS Finite Damping Escalates PredictedPositive
PROPERTIES LossDecreases Factor
CHECK_DEADLOCK FALSE
