CONSTANT MaxLen = 3
CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANTS EqualTogether EnoughTrained PastBeforeFuture Ends RandomAgrees Lags Partition
CHECK_DEADLOCK FALSE
