--------------------------------- MODULE Plot ---------------------------------
(* What plots show.  A canvas is a set of axes, each holding drawn items;    *)
(* drawing only adds to the axes it was given (or to new ones).  The items   *)
(* are exact: marginals of gridded densities with unit area, contour lines   *)
(* of linear maps, polylines through chains of points, selected columns.     *)
EXTENDS Mesh, IterLin

(* ---------------------------- canvas ---------------------------- *)
Draw(cv, target, items) ==    \* target 0: new axes
    IF target = 0 THEN Append(cv, items)
    ELSE [cv EXCEPT ![target] = @ \cup items]

(* ---------------------- densities on a grid ---------------------- *)
(* v: values at the points of GridPts(B, n), in its order; m = n - 1 per axis *)
AxisIdx(D, m, j, k) == (((k - 1) \div PowI(m, D - j)) % m) + 1
RECURSIVE SumIf(_, _, _, _, _, _)
SumIf(v, k, D, m, j, i) == IF k = 0 THEN Zero
                           ELSE LET s == SumIf(v, k - 1, D, m, j, i)
                                IN IF AxisIdx(D, m, j, k) = i THEN Add(v[k], s) ELSE s
Marginal(v, D, m, j) == TLCEval([i \in 1..m |-> SumIf(v, Len(v), D, m, j, i)])
StepW(B, n, j) == RAbs(Div(Sub(B[j][2], B[j][1]), R(n - 1)))
UnitV(y, h) == LET t == Mul(SumSeq(y), h) IN TLCEval([i \in 1..Len(y) |-> Div(y[i], t)])
Unit(y, h) == By2(UnitV, y, h)
GridValsV(d, G) == TLCEval([k \in 1..Len(G[1]) |-> PdfRow(d, [j \in 1..Len(G) |-> G[j][k]])])
GridVals(d, B, n) == IF d.k = "grid" THEN d.v ELSE By2(GridValsV, d, GridPts(B, n))
CurveX(B, n, j) == TLCEval([i \in 1..(n - 1) |-> Pt(B[j][1], B[j][2], n, i)])
CurveY(d, B, n, j) == Unit(Marginal(GridVals(d, B, n), Len(B), n - 1, j), StepW(B, n, j))

(* ------------------------- lines of a map ------------------------- *)
Sq2(p) == Add(Mul(p[1], p[1]), Mul(p[2], p[2]))
P2Sub(p, r) == <<Sub(p[1], r[1]), Sub(p[2], r[2])>>
(* the segment from one end to the other of the contour of `row` through ref, w to each side *)
IsContour(seg, row, ref, w) ==
    LET u == P2Sub(seg[1], ref)  v == P2Sub(seg[2], ref)
    IN /\ VDot(row, u) = Zero /\ VDot(row, v) = Zero
       /\ Sq2(u) = Mul(w, w) /\ u = <<Neg(v[1]), Neg(v[2])>>
(* the same from a unit direction, rational when the row's norm is *)
ContourEnds(row, ref, w) ==
    LET h == Div(w, RSqrt(Sq2(row)))
        d == <<Mul(h, row[2]), Neg(Mul(h, row[1]))>>
    IN <<P2Sub(ref, d), <<Add(ref[1], d[1]), Add(ref[2], d[2])>>>>

(* ------------------------- joined points ------------------------- *)
SameSeg(s, a, b) == (s[1] = a /\ s[2] = b) \/ (s[1] = b /\ s[2] = a)
Pairs(chain) == {<<chain[k], chain[k + 1]>> : k \in {k \in 1..(Len(chain) - 1) : chain[k] # chain[k + 1]}}
ColPt(x) == <<x[1][1], x[2][1]>>
ChainPts(ch) == TLCEval([k \in 1..Len(ch) |-> ColPt(ch[k])])
=============================================================================
