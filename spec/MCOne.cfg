SPECIFICATION Spec
CONSTANTS Fam = "cmp" Base = "pl" OneIn = 1 Seed = 1 Bug = ""
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
