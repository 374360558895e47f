INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- ProjClauses
CHECK_DEADLOCK FALSE
