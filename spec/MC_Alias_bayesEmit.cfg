INIT Init
NEXT Next
CONSTANTS
  Slots = {"X", "y", "domain"}
  Required = {"X", "y"}
  Late = {}
  LateSlot = ""
  Asks = {"map_point", "estimate", "plot_param", "plot_obs"}
  MaxV = 1
  Emit = TRUE
INVARIANTS CapturedThen Isolated
PROPERTIES HeapByCaller ProbBySetter AnswersStay
CHECK_DEADLOCK FALSE
