INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- FormsClauses
CHECK_DEADLOCK FALSE
