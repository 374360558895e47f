INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- LossClauses
CHECK_DEADLOCK FALSE
