INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- MixClauses
CHECK_DEADLOCK FALSE
