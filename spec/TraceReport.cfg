INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- ReportClauses
CHECK_DEADLOCK FALSE
