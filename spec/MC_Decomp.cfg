INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Vals = {0, 1, 2} MaxR = 2 MaxC = 3
INVARIANTS RankNullity Transposed Gram ComplexRank Minors Line DiagSeq SvdAccepts
