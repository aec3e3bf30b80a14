--------------------------------- MODULE Dist ---------------------------------
(* Distributions whose densities are exact rational functions.               *)
(* A distribution d has a field k:                                           *)
(*   "tab"  tab: sequence of <<value, density>>; 0 elsewhere (elementwise)    *)
(*   "joint" rows: sequence of <<point, density>> (one number per row)        *)
(*   "unif" loc, scale   "tri" c, loc, scale   "pow2" loc, scale (a = 2)      *)
(*          loc/scale: one value, or one per column                          *)
EXTENDS Mat

PerCol(s, j) == IF Len(s) = 1 THEN s[1] ELSE s[j]
In01(z) == Le(Zero, z) /\ Le(z, One)

Pdf1(d, v, j) ==   \* density of component value v in column j
    IF d.k = "tab"
    THEN IF \E i \in 1..Len(d.tab) : d.tab[i][1] = v
         THEN LET i == CHOOSE i \in 1..Len(d.tab) : d.tab[i][1] = v IN d.tab[i][2]
         ELSE Zero
    ELSE LET sc == PerCol(d.scale, j)
             z == Div(Sub(v, PerCol(d.loc, j)), sc)
         IN IF IsOvf(z) THEN Ovf
            ELSE IF ~In01(z) THEN Zero
            ELSE IF d.k = "unif" THEN Inv(sc)
            ELSE IF d.k = "pow2" THEN Div(Mul(R(2), z), sc)
            ELSE IF d.k = "tri"
                 THEN LET h == PerCol(d.c, j)
                      IN Div(Mul(R(2), IF Le(z, h) /\ h # Zero THEN Div(z, h)
                                       ELSE Div(Sub(One, z), Sub(One, h))), sc)
            ELSE NaN

(* density of every row: components are independent, so densities multiply *)
PdfRow(d, row) ==
    IF d.k = "joint"
    THEN LET i == CHOOSE i \in 1..Len(d.rows) : d.rows[i][1] = row IN d.rows[i][2]
    ELSE ProdSeq([j \in 1..Len(row) |-> Pdf1(d, row[j], j)])
PdfRows(d, X) == TLCEval([i \in 1..Rows(X) |-> PdfRow(d, X[i])])

(* bounding box of the rows of X, padded by p times the range of each column *)
ColMin(X, j) == MinSeq([i \in 1..Rows(X) |-> X[i][j]])
ColMax(X, j) == MaxSeq([i \in 1..Rows(X) |-> X[i][j]])
Bounds(X) == TLCEval([j \in 1..Cols(X) |-> <<ColMin(X, j), ColMax(X, j)>>])
PadBox(B, p) == TLCEval([j \in 1..Len(B) |->
                   LET w == Mul(p, Sub(B[j][2], B[j][1]))
                   IN <<Sub(B[j][1], w), Add(B[j][2], w)>>])
UniformOn(B) == [k |-> "unif", loc |-> [j \in 1..Len(B) |-> RMin(B[j][1], B[j][2])],
                 scale |-> [j \in 1..Len(B) |-> RAbs(Sub(B[j][2], B[j][1]))]]
=============================================================================
