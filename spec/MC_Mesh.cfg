INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Vals = {0, 1, 3} MaxN = 3 MaxAff = 4
INVARIANTS Covers Width ByBounds Product Mesh2
