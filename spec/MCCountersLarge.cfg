INIT Init
NEXT Next
CONSTANTS MaxLs = 7
          Steps = 4
          Bug = FALSE
INVARIANTS ClosedForm Accounted Values Bounded
CHECK_DEADLOCK FALSE
