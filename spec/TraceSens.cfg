INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- SensClauses
CHECK_DEADLOCK FALSE
