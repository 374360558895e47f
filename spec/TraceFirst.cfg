INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- FirstClauses
CHECK_DEADLOCK FALSE
