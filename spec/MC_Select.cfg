INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 2 MaxE = 2 MaxT = 3 MaxSel = 2
INVARIANTS Entries Whole SubProblem Compose NearIs Resid Loads
