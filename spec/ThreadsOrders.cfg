SPECIFICATION Spec
CONSTANTS Design = "lib"
          Progs <- Orders
          TrackH = TRUE
INVARIANTS Atomic Unchanged KeptRight Emit
CHECK_DEADLOCK TRUE
