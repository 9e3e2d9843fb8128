CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANTS HonestError HonestMean TextDecodes ClipText ShiftOk
CHECK_DEADLOCK FALSE
