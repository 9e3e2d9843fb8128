CONSTANT NPts = 3
CONSTANT Draws = 2
CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANTS SelfZero PairSymmetric Defined EnvelopeOk
CHECK_DEADLOCK FALSE
