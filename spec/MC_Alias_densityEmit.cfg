INIT Init
NEXT Next
CONSTANTS
  Slots = {"X", "y", "domain", "weights"}
  Required = {"X", "y"}
  Late = {"w2"}
  LateSlot = "weights"
  Asks = {"mud_point", "estimate", "expected_ratio", "plot_param", "plot_obs"}
  MaxV = 1
  Emit = TRUE
INVARIANTS CapturedThen Isolated
PROPERTIES HeapByCaller ProbBySetter AnswersStay
CHECK_DEADLOCK FALSE
