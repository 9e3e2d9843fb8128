CONSTANT MaxLen = 4
CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANTS TSane BernsteinDual ClipSane BootSane OrderSane
CHECK_DEADLOCK FALSE
