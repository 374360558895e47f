INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- BisectClauses
CHECK_DEADLOCK FALSE
