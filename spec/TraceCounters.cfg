INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- CountersClauses
CHECK_DEADLOCK FALSE
