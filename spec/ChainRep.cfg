SPECIFICATION Spec
CONSTANTS NK = 3 MaxTop = 4 BugCut = FALSE BugOrig = FALSE OneIn = 1 Most = 1000 Seed = 1
VIEW View
INVARIANTS Refines Chains OrigSound Emit
CHECK_DEADLOCK FALSE
