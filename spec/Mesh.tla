--------------------------------- MODULE Mesh ---------------------------------
(* Domains fitted to samples and evenly spaced meshes, exactly.              *)
EXTENDS Dist

(* bounds given or those of the samples, moved outwards by the ratio         *)
FitBox(X, B, p) == PadBox(IF B # <<>> THEN B ELSE Bounds(X), p)
(* n evenly spaced points from lo to hi, both included *)
Pt(lo, hi, n, i) == IF n = 1 THEN lo ELSE Add(lo, Div(Mul(R(i - 1), Sub(hi, lo)), R(n - 1)))
Line(lo, hi, n) == TLCEval([i \in 1..n |-> Pt(lo, hi, n, i)])
(* two-dimensional mesh, row-major: the first coordinate varies fastest      *)
MeshX(lo, hi, n) == LET L == Line(lo, hi, n) IN TLCEval([k \in 1..(n * n) |-> L[((k - 1) % n) + 1]])
MeshY(lo, hi, n) == LET L == Line(lo, hi, n) IN TLCEval([k \in 1..(n * n) |-> L[((k - 1) \div n) + 1]])
MeshList(lo, hi, n) == LET x == MeshX(lo, hi, n)  y == MeshY(lo, hi, n)
                       IN TLCEval([k \in 1..(n * n) |-> <<x[k], y[k]>>])
(* plotting grid: the points of every axis without its last, axis by axis,   *)
(* the last axis varying fastest                                             *)
RECURSIVE PowI(_, _)
PowI(b, e) == IF e = 0 THEN 1 ELSE b * PowI(b, e - 1)
GridCoord(B, n, j, k) ==     \* coordinate j of the k-th grid point
    LET m == n - 1   w == PowI(m, Len(B) - j)
    IN Pt(B[j][1], B[j][2], n, (((k - 1) \div w) % m) + 1)
GridPts(B, n) == TLCEval([j \in 1..Len(B) |-> [k \in 1..PowI(n - 1, Len(B)) |-> GridCoord(B, n, j, k)]])
GridShape(B, n) == [j \in 1..Len(B) |-> n - 1]
(* one-dimensional arrays are reshaped to a row or a column                   *)
Reshaped(shape, n) == IF shape = <<1, -1>> THEN <<1, n>> ELSE <<n, 1>>
=============================================================================
