INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- PerturbClauses
CHECK_DEADLOCK FALSE
