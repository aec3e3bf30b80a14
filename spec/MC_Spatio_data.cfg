CONSTANTS
  Side = "data"
  Emit = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Agree TypeOK Cols1 Commute Repeatable
PROPERTIES AcceptedMeans Frame
