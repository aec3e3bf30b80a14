INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Vals = {0, 1, 3} MaxD = 3
INVARIANTS First OneGroup PerGroup Exact Likely
