CONSTANT K = 5
INIT Init
NEXT Next
INVARIANT SpecOk
CHECK_DEADLOCK FALSE
