INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- IsoClauses
CHECK_DEADLOCK FALSE
