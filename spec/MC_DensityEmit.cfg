CONSTANTS
  Ws = {"w0", "w1"}
  Ins = {"def", "i1"}
  Obs = {"def", "o1"}
  Prs = {"p1"}
  Bws = {"bw0", "bw1"}
  Emit = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK NeverStale
