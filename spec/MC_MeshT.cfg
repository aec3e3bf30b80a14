INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Vals = {0, 1, 3, 4} MaxN = 3 MaxAff = 6
INVARIANTS Covers Width ByBounds Product Mesh2
