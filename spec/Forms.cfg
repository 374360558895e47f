INIT Init
NEXT Next
CONSTANT Bug = "none"
INVARIANTS Shapes NoDiff SameView AuxView Emit
CHECK_DEADLOCK FALSE
