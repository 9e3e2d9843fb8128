CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANTS Within Symmetric SelfNotSignificant ShiftInvariant InfiniteSaysNothing
CHECK_DEADLOCK FALSE
