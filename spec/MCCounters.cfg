INIT Init
NEXT Next
CONSTANTS MaxLs = 4
          Steps = 3
          Bug = FALSE
INVARIANTS ClosedForm Accounted Values Bounded
CHECK_DEADLOCK FALSE
