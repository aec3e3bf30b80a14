CONSTANTS
  Ws = {"w0", "w1", "w2"}
  Ins = {"def", "i1", "i2"}
  Obs = {"def", "o1", "o2"}
  Prs = {"p1", "p2"}
  Bws = {"bw0", "bw1"}
  Emit = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK NeverStale AsFresh Idempotent PredictedFresh Coherent
PROPERTY Frame
