SPECIFICATION Spec
CONSTANTS MaxLen = 4 MaxOff = 3 BugRead = FALSE BugOrig = FALSE OneIn = 1 Most = 1000 Seed = 1
VIEW View
INVARIANTS Refines OrigSound Emit
CHECK_DEADLOCK FALSE
