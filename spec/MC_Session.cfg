CONSTANT Calls = 3
INIT Init
NEXT Next
INVARIANTS Accepts Rejects
CHECK_DEADLOCK FALSE
