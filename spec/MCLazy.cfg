SPECIFICATION Spec
CONSTANTS Design = "lib"
          Scenarios <- Quick
          TrackH = FALSE
INVARIANTS NeverBad Locks Ready
PROPERTY AllEnd
CHECK_DEADLOCK TRUE
