SPECIFICATION Spec
CONSTANTS Design = "lib"
          Progs <- Small
          TrackH = FALSE
INVARIANTS Atomic Unchanged KeptRight
PROPERTY AllEnd
CHECK_DEADLOCK TRUE
