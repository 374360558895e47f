CONSTANT MaxL = 6
CONSTANT MaxLs = 4
CONSTANT Bug = FALSE
CONSTANT Emit = TRUE
SPECIFICATION Spec
INVARIANT EachOnceInOrder AsDocumented Capped Conservative NotAbove Bounded Accepts
PROPERTY Closer Ends
CHECK_DEADLOCK FALSE
