SPECIFICATION Spec
CONSTANTS Fam = "share" Base = "pl" Start = "pers" MaxDepth = 4 MaxObj = 4 Bug = "" OneIn = 1 Seed = 1
VIEW View
INVARIANTS KindsOk DistinctOk SnapOk EqOk IterOk Emit
PROPERTY Steps
CHECK_DEADLOCK FALSE
