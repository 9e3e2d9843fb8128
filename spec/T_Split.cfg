INIT TraceInit
NEXT TraceNext
INVARIANT Check
CHECK_DEADLOCK FALSE
