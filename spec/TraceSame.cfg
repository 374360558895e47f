INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- SameClauses
CHECK_DEADLOCK FALSE
