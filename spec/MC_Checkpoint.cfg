CONSTANT MaxRuns = 3
INIT Init
NEXT Next
INVARIANTS NeverRefit AllTrained StoreGrows StoredOnlyCompleted CrashLosesOnlyTheCrashed Resumes
CHECK_DEADLOCK FALSE
