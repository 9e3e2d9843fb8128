CONSTANT MaxLabels = 3
CONSTANT Steps = 8
INIT Init
NEXT Next
INVARIANTS Proper Scaled Bayes
CHECK_DEADLOCK FALSE
