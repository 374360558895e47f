SPECIFICATION Spec
CONSTANT KMax = 5
CONSTANT TMax = "3"
CONSTANT Vals = {"-1", "0.005", "1", "nan"}
CONSTANT Slopes = {"-1", "-0.3", "1"}
INVARIANTS Positive Inside LowGood SafeGood Success Failure Bounded NoBoth Result
CHECK_DEADLOCK FALSE
