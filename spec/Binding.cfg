CONSTANT Bug = FALSE
CONSTANT Emit = TRUE
SPECIFICATION Spec
INVARIANT Routed EachOnce RefusedOnlyGaps
PROPERTY Ends
CHECK_DEADLOCK FALSE
