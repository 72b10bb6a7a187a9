SPECIFICATION Spec
CONSTANTS Design = "lib"
          Scenarios <- All
          TrackH = FALSE
INVARIANTS NeverBad Locks Ready
PROPERTY AllEnd
CHECK_DEADLOCK TRUE
