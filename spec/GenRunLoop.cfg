INIT Init
NEXT Next
CONSTANTS
  MaxMaxiter = 3
  ErrClasses = {"0.5", "0.25", "0.125", "nan", "inf"}
  Tol = "0.25"
INVARIANT Emit
CHECK_DEADLOCK FALSE
