INIT Init
NEXT Next
CONSTANT M = 2
CONSTANT K = 4
CONSTANT Bug = FALSE
INVARIANTS RingIsRecent HDense PD Inverse Boxed BroydenSecant
PROPERTIES SecantStep
CHECK_DEADLOCK FALSE
