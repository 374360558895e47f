SPECIFICATION Spec
CONSTANT NMax = 5
CONSTANT G = {"-1", "-0.5", "0", "0.5", "2"}
INVARIANTS Correct Safe Optimal
PROPERTY Terminates
CHECK_DEADLOCK FALSE
