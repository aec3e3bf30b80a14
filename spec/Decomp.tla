-------------------------------- MODULE Decomp --------------------------------
(* Decompositions by their defining equations.  Inputs are exact rational    *)
(* matrices, outputs fixed-point.                                            *)
EXTENDS Mat, Fix, FiniteSets

(* ------------------------- exact rank and null space ---------------------- *)
RECURSIVE Ech(_, _, _)
(* reduced row echelon form from row r, column q on; <<matrix, pivot columns>> *)
Ech(A, r, q) ==
    IF r > Rows(A) \/ q > Cols(A) THEN <<A, <<>>>>
    ELSE LET piv == {i \in r..Rows(A) : A[i][q] # Zero}
         IN IF piv = {} THEN Ech(A, r, q + 1)
            ELSE LET p == CHOOSE i \in piv : \A k \in piv : i <= k
                     S == TLCEval([i \in 1..Rows(A) |-> IF i = r THEN A[p] ELSE IF i = p THEN A[r] ELSE A[i]])
                     inv == Inv(S[r][q])
                     T == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |->
                            LET rr == Mul(inv, S[r][j])
                            IN IF i = r THEN rr ELSE Sub(S[i][j], Mul(S[i][q], rr))]])
                     e == Ech(T, r + 1, q + 1)
                 IN <<e[1], <<q>> \o e[2]>>
RankOf(A) == Len(Ech(A, 1, 1)[2])
(* a basis of the null space: one vector per column without a pivot *)
NullBasis(A) ==
    LET e == Ech(A, 1, 1)   P == e[2]
        FreeS == {j \in 1..Cols(A) : \A k \in 1..Len(P) : P[k] # j}
        Vec(f) == TLCEval([j \in 1..Cols(A) |->
                    IF j = f THEN One
                    ELSE IF \E k \in 1..Len(P) : P[k] = j
                         THEN LET k == CHOOSE k \in 1..Len(P) : P[k] = j IN Neg(e[1][k][f])
                         ELSE Zero])
    IN {Vec(f) : f \in FreeS}

(* ---------------------------- fixed-point views ---------------------------- *)
ToFix(a) == LET x == a[1] * SC IN IF x >= 0 THEN (x + a[2] \div 2) \div a[2] ELSE -((-x + a[2] \div 2) \div a[2])
FixM(A) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> ToFix(A[i][j])]])
(* column standardisation; sd: fixed-point witnesses of the column deviations (0 for a constant column) *)
Mean(X, j) == Div(SumSeq([i \in 1..Rows(X) |-> X[i][j]]), R(Rows(X)))
Var(X, j) == LET m == Mean(X, j)
             IN Div(SumSeq([i \in 1..Rows(X) |-> LET z == Sub(X[i][j], m) IN Mul(z, z)]), R(Rows(X)))
SdOk(X, sd) == Len(sd) = Cols(X) /\ \A j \in 1..Cols(X) : Near(FMul(sd[j], sd[j]), ToFix(Var(X, j)), 6 + sd[j] \div 500)
Std1(X, sd) == TLCEval([i \in 1..Rows(X) |-> [j \in 1..Cols(X) |->
                 IF Var(X, j) = Zero THEN 0
                 ELSE LET d == ToFix(Sub(X[i][j], Mean(X, j))) * SC
                      IN IF d >= 0 THEN (d + sd[j] \div 2) \div sd[j] ELSE -((-d + sd[j] \div 2) \div sd[j])]])

(* ------------------------------ the relations ------------------------------ *)
(* Z is an orthonormal basis of the null space of A (n columns, k vectors) *)
IsNullSpace(A, Z, k) ==
    /\ k = Cols(A) - RankOf(A)
    /\ Len(Z) = Cols(A) /\ \A i \in 1..Len(Z) : Len(Z[i]) = k
    /\ k > 0 => /\ FNear(FMM(FixM(A), Z, Rows(A), Cols(A), k), FZero(Rows(A), k), Rows(A), k, 40)
                /\ Orthonormal(FT(Z, Cols(A), k), k, Cols(A), 12)
(* the same for the complex matrix A + iB and basis Z + iW, through the real matrix [A -B; B A]: its null space is that of the
   complex one read as a real space (of twice the dimension), orthonormality is Z'Z + W'W = I and Z'W - W'Z = 0 *)
RealOf(A, B) == TLCEval([i \in 1..(2 * Rows(A)) |-> [j \in 1..(2 * Cols(A)) |->
    LET m == Rows(A)  n == Cols(A)
        ii == IF i <= m THEN i ELSE i - m   jj == IF j <= n THEN j ELSE j - n
    IN IF (i <= m) = (j <= n) THEN A[ii][jj] ELSE IF i <= m THEN Neg(B[ii][jj]) ELSE B[ii][jj]]])
IsNullSpaceC(A, B, Z, W, k) ==
    LET n == Cols(A)   T == RealOf(A, B)
    IN /\ 2 * k = 2 * n - RankOf(T)
       /\ Len(Z) = n /\ Len(W) = n /\ \A i \in 1..n : Len(Z[i]) = k /\ Len(W[i]) = k
       /\ k > 0 => LET ZW == TLCEval([i \in 1..(2 * n) |-> IF i <= n THEN Z[i] ELSE W[i - n]])
                       Dt(a, p, b, q) == FSum([i \in 1..n |-> FMul(a[i][p], b[i][q])])
                   IN /\ FNear(FMM(FixM(T), ZW, 2 * Rows(A), 2 * n, k), FZero(2 * Rows(A), k), 2 * Rows(A), k, 60)
                      /\ \A p, q \in 1..k : /\ Near(Dt(Z, p, Z, q) + Dt(W, p, W, q), IF p = q THEN SC ELSE 0, 16)
                                             /\ Near(Dt(Z, p, W, q), Dt(W, p, Z, q), 16)
Decreasing(s, tol) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1] - tol
NonNeg(s) == \A i \in 1..Len(s) : s[i] >= 0
(* U diag(s) V = Z with orthonormal factors *)
IsSvd(Zs, n, d, U, s, V, full) ==
    LET m == IF n < d THEN n ELSE d
        US == TLCEval([i \in 1..n |-> [q \in 1..m |-> FMul(U[i][q], s[q])]])
    IN /\ Len(s) = m /\ NonNeg(s) /\ Decreasing(s, 2)
       /\ Len(U) = n /\ Len(U[1]) = (IF full THEN n ELSE m) /\ Len(V) = (IF full THEN d ELSE m) /\ Len(V[1]) = d
       /\ FNear(FMM(US, V, n, m, d), Zs, n, d, 40)
       /\ Orthonormal(FT(U, n, Len(U[1])), Len(U[1]), n, 12) /\ Orthonormal(V, Len(V), d, 12)
(* k principal components C of the standardised data, transformed data T, variances v *)
IsPca(Zs, n, d, k, C, T, v) ==
    /\ Len(C) = k /\ Len(T) = n /\ Len(T[1]) = k /\ Len(v) = k
    /\ Orthonormal(C, k, d, 12)
    /\ FNear(T, FMM(Zs, FT(C, k, d), n, d, k), n, k, 40)
    /\ Decreasing(v, 3) /\ NonNeg(v)
    /\ \A i, j \in 1..k :
         LET cij == FSum([q \in 1..n |-> FMul(T[q][i], T[q][j])]) \div (n - 1)
         IN Near(cij, IF i = j THEN v[i] ELSE 0, 40)
(* A_1 .. A_m: best approximations of every rank; the differences are orthogonal rank-one layers *)
IsRankSeq(A, L) ==
    LET m == Rows(A)  n == Cols(A)  K == IF m < n THEN m ELSE n
        Lay(k) == TLCEval([i \in 1..m |-> [j \in 1..n |-> L[k][i][j] - (IF k = 1 THEN 0 ELSE L[k - 1][i][j])]])
        D == TLCEval([k \in 1..K |-> Lay(k)])
        Fro(k) == FSum([i \in 1..m |-> Dot(D[k][i], D[k][i])])
    IN /\ Len(L) = K
       /\ \A k \in 1..K : Len(L[k]) = m /\ \A i \in 1..m : Len(L[k][i]) = n
       /\ FNear(L[K], FixM(A), m, n, 4)
       /\ \A k \in 1..K : \A i, p \in 1..m : \A j, q \in 1..n :      \* rank one: all 2 x 2 minors vanish
             Near(FMul(D[k][i][j], D[k][p][q]), FMul(D[k][i][q], D[k][p][j]), 40)
       /\ \A k, h \in 1..K : k # h =>
             /\ FNear(FMM(D[k], FT(D[h], m, n), m, n, m), FZero(m, m), m, m, 60)
             /\ FNear(FMM(FT(D[k], m, n), D[h], n, m, n), FZero(n, n), n, n, 60)
       /\ \A k \in 1..(K - 1) : Fro(k) >= Fro(k + 1) - 60
=============================================================================
