INIT Init
NEXT Next
CONSTANTS
  Slots = {"A", "b", "y", "mean_i", "cov_i", "cov_o"}
  Required = {"A", "y", "b", "mean_i"}
  Late = {}
  LateSlot = ""
  Asks = {"mud", "mud_alt", "map", "ls", "all", "functionals", "updated_cov"}
  MaxV = 1
  Emit = TRUE
INVARIANTS CapturedThen Isolated
PROPERTIES HeapByCaller ProbBySetter AnswersStay
CHECK_DEADLOCK FALSE
