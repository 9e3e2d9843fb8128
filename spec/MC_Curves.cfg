CONSTANT MaxLen = 4
CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANTS AucIsMannWhitney AucFlip WeightsRepeat Invariance Shape OneClassLimit AtPoints
CHECK_DEADLOCK FALSE
