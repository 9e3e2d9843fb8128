CONSTANT MaxFaults = 2
INIT Init
NEXT Next
INVARIANTS BothSorts EachCondition Matters
CHECK_DEADLOCK FALSE
