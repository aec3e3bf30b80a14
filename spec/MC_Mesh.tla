------------------------------- MODULE MC_Mesh -------------------------------
(* Laws of fitted domains and meshes over small samples, paddings and sizes. *)
EXTENDS Mesh, FiniteSets
CONSTANTS Vals, MaxN, MaxAff
VARIABLES ph, X, p, B, aff
R1(f) == [q \in DOMAIN f |-> R(f[q])]
Ratios == {Zero, One, <<1, 2>>, <<1, 10>>}
Init == ph = 0 /\ X = <<<<Zero>>>> /\ p = Zero /\ B = <<<<Zero, One>>>> /\ aff = 2
Next == ph = 0 /\ ph' = 1 /\
        \/ \E n \in 1..MaxN, c \in 1..2 : \E f \in [1..n -> [1..c -> Vals]] :
              /\ X' = [i \in 1..n |-> R1(f[i])] /\ p' \in Ratios /\ UNCHANGED <<B, aff>>
        \/ \E d \in 1..3 : \E lo, hi \in [1..d -> Vals] :
              /\ \A j \in 1..d : lo[j] < hi[j]
              /\ B' = [j \in 1..d |-> <<R(lo[j]), R(hi[j])>>] /\ aff' \in 2..MaxAff /\ UNCHANGED <<X, p>>
D == FitBox(X, <<>>, p)
(* every sample lies inside, by the padded margin; no padding is tight *)
Covers == /\ Len(D) = Cols(X)
          /\ \A j \in 1..Cols(X) : \A i \in 1..Rows(X) : Le(D[j][1], X[i][j]) /\ Le(X[i][j], D[j][2])
          /\ p = Zero => \A j \in 1..Cols(X) : (\E i \in 1..Rows(X) : X[i][j] = D[j][1]) /\ (\E i \in 1..Rows(X) : X[i][j] = D[j][2])
(* the width grows by twice the ratio; fitting the fitted bounds agrees *)
Width == \A j \in 1..Cols(X) : LET w == Sub(ColMax(X, j), ColMin(X, j))
                               IN Sub(D[j][2], D[j][1]) = Mul(w, Add(One, Mul(R(2), p)))
ByBounds == FitBox(X, Bounds(X), p) = D
G == GridPts(B, aff)
(* the grid is the whole product, each point once, in lexicographic order, without the upper ends *)
LexLess(a, b) == \E j \in 1..Len(B) : Lt(G[j][a], G[j][b]) /\ \A h \in 1..(j - 1) : G[h][a] = G[h][b]
Product == LET K == PowI(aff - 1, Len(B))
           IN /\ \A k \in 1..(K - 1) : LexLess(k, k + 1)
              /\ \A k \in 1..K : \A j \in 1..Len(B) : G[j][k] \in {Pt(B[j][1], B[j][2], aff, i) : i \in 1..(aff - 1)}
              /\ \A k \in 1..K : \A j \in 1..Len(B) : Lt(G[j][k], B[j][2])
              /\ \A j \in 1..Len(B) : G[j][1] = B[j][1]
Mesh2 == LET L == MeshList(B[1][1], B[1][2], aff)
         IN /\ Cardinality({L[k] : k \in 1..Len(L)}) = aff * aff
            /\ L[1] = <<B[1][1], B[1][1]>> /\ L[aff * aff] = <<B[1][2], B[1][2]>> /\ L[aff] = <<B[1][2], B[1][1]>>
            /\ \A k \in 1..(aff * aff - 1) : Le(L[k][2], L[k + 1][2])
=============================================================================
