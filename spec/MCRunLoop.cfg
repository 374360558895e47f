SPECIFICATION Spec
CONSTANTS
  MaxMaxiter = 4
  ErrClasses = {"0.5", "0.25", "0.125", "nan", "inf"}
  Tol = "0.25"
INVARIANTS Bound CountIsUpdates NoEarlyStop NoLateStop StopIndexAgrees
PROPERTY Terminates
CHECK_DEADLOCK FALSE
