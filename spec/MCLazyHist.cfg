SPECIFICATION Spec
CONSTANTS Design = "lib"
          Scenarios <- Hist
          TrackH = TRUE
INVARIANTS NeverBad Emit
CHECK_DEADLOCK TRUE
