INIT Init
NEXT Next
CONSTANTS
  Prs = {"def", "p1", "p2", "p0"}
  Lls = {"l1", "l2", "l0", "l9"}
  Emit = TRUE
INVARIANTS NeverStale AsFresh Idempotent ModeIrrelevant
PROPERTY RefusalKeeps
CHECK_DEADLOCK FALSE
