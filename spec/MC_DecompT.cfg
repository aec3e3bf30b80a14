INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Vals <- ValsT MaxR = 3 MaxC = 3
INVARIANTS RankNullity Transposed Gram ComplexRank Minors Line DiagSeq SvdAccepts
