--------------------------------- MODULE Mat ---------------------------------
(* Matrices over Rat: a matrix is a non-empty sequence of rows, each a       *)
(* non-empty sequence of rationals.                                          *)
EXTENDS Rat, TLC
(* TLCEval: TLC would otherwise re-evaluate a function constructor at every  *)
(* application, which is exponential in nested matrix expressions.  For the  *)
(* same reason operands are bound to values (By1, By2) before they are used. *)
By1(F(_), x) == CHOOSE r \in {F(u) : u \in {x}} : TRUE
By2(F(_, _), x, y) == CHOOSE r \in {F(u, v) : u \in {x}, v \in {y}} : TRUE

Rows(A) == Len(A)
Cols(A) == Len(A[1])
MkMat(m, n, F(_, _)) == TLCEval([i \in 1..m |-> [j \in 1..n |-> F(i, j)]])
Eye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]])
ZeroMat(m, n) == [i \in 1..m |-> [j \in 1..n |-> Zero]]
TrV(A) == TLCEval([j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]])
Tr(A) == By1(TrV, A)
MAddV(A, B) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> Add(A[i][j], B[i][j])]])
MAdd(A, B) == By2(MAddV, A, B)
MSubV(A, B) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> Sub(A[i][j], B[i][j])]])
MSub(A, B) == By2(MSubV, A, B)
MScaleV(k, A) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> Mul(k, A[i][j])]])
MScale(A, B) == By2(MScaleV, A, B)
MMulV(A, B) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(B) |->
                 SumSeq([k \in 1..Cols(A) |-> Mul(A[i][k], B[k][j])])]])
MMul(A, B) == By2(MMulV, A, B)
ColV(v) == TLCEval([i \in 1..Len(v) |-> <<v[i]>>])            \* column matrix of a vector
Col(A) == By1(ColV, A)
FlatV(A) == TLCEval([k \in 1..(Rows(A) * Cols(A)) |->
               A[((k - 1) \div Cols(A)) + 1][((k - 1) % Cols(A)) + 1]])
Flat(A) == By1(FlatV, A)
SubRows(A, n) == SubSeq(A, 1, n)
SubMat(A, m, n) == TLCEval([i \in 1..m |-> [j \in 1..n |-> A[i][j]]])
VDotV(u, v) == SumSeq([i \in 1..Len(u) |-> Mul(u[i], v[i])])
VDot(A, B) == By2(VDotV, A, B)
MatOvfV(A) == \E i \in 1..Rows(A) : AnyOvf(A[i])
MatOvf(A) == By1(MatOvfV, A)

(* Gauss-Jordan elimination on an augmented matrix M whose first n columns   *)
(* are the (square) matrix; <<>> when singular.                              *)
RECURSIVE GJ(_, _, _)
GJ(M, n, k) ==
    IF k > n THEN M
    ELSE LET piv == {i \in k..n : M[i][k] # Zero}
         IN IF piv = {} THEN <<>>
            ELSE LET p == CHOOSE i \in piv : \A q \in piv : i <= q
                     S == TLCEval([i \in 1..n |-> IF i = k THEN M[p]
                                          ELSE IF i = p THEN M[k] ELSE M[i]])
                     inv == Inv(S[k][k])
                     rk == TLCEval([j \in 1..Len(S[k]) |-> Mul(inv, S[k][j])])
                     T == TLCEval([i \in 1..n |->
                             IF i = k THEN rk
                             ELSE IF S[i][k] = Zero THEN S[i]
                             ELSE [j \in 1..Len(rk) |->
                                     Sub(S[i][j], Mul(S[i][k], rk[j]))]])
                 IN IF MatOvf(T) THEN T ELSE GJ(T, n, k + 1)

OvfMat(n, m) == [i \in 1..n |-> [j \in 1..m |-> Ovf]]

(* Solution X of A X = B for square A; <<>> when A is singular *)
MSolveV(A, B) ==
    LET n == Rows(A)
        M == TLCEval([i \in 1..n |-> A[i] \o B[i]])
    IN IF MatOvf(M) THEN OvfMat(n, Cols(B))
       ELSE LET G == GJ(M, n, 1)
            IN IF G = <<>> THEN <<>>
               ELSE IF MatOvf(G) THEN OvfMat(n, Cols(B))
               ELSE TLCEval([i \in 1..n |-> SubSeq(G[i], n + 1, n + Cols(B))])
MSolve(A, B) == By2(MSolveV, A, B)
MInv(A) == MSolve(A, Eye(Rows(A)))
NonSing(A) == LET I == MInv(A) IN I # <<>>

(* Row echelon form: the non-zero rows of rref(A) (a basis of the row space) *)
RECURSIVE RrefR(_, _, _)
RrefR(M, k, c) ==
    IF c > Cols(M) \/ k > Rows(M) THEN M
    ELSE LET piv == {i \in k..Rows(M) : M[i][c] # Zero}
         IN IF piv = {} THEN RrefR(M, k, c + 1)
            ELSE LET p == CHOOSE i \in piv : \A q \in piv : i <= q
                     S == TLCEval([i \in 1..Rows(M) |-> IF i = k THEN M[p]
                                          ELSE IF i = p THEN M[k] ELSE M[i]])
                     inv == Inv(S[k][c])
                     rk == TLCEval([j \in 1..Len(S[k]) |-> Mul(inv, S[k][j])])
                     T == TLCEval([i \in 1..Rows(M) |->
                             IF i = k THEN rk
                             ELSE IF S[i][c] = Zero THEN S[i]
                             ELSE [j \in 1..Len(rk) |->
                                     Sub(S[i][j], Mul(S[i][c], rk[j]))]])
                 IN RrefR(T, k + 1, c + 1)
RrefV(A) == SelectSeq(RrefR(A, 1, 1), LAMBDA r : \E j \in 1..Len(r) : r[j] # Zero)
Rref(A) == By1(RrefV, A)
Rank(A) == Len(Rref(A))

(* Moore-Penrose inverse through a full-rank factorisation A = C F:          *)
(* F = rref rows, C = the pivot columns of A;                                *)
(* A^+ = F^T (F F^T)^-1 (C^T C)^-1 C^T                                       *)
PivCols(F) == TLCEval([i \in 1..Rows(F) |->
                 CHOOSE j \in 1..Cols(F) : /\ F[i][j] # Zero
                                           /\ \A q \in 1..(j - 1) : F[i][q] = Zero])
PinvV(A) ==
    IF MatOvf(A) THEN OvfMat(Cols(A), Rows(A))
    ELSE LET F == Rref(A)
         IN IF F = <<>> THEN ZeroMat(Cols(A), Rows(A))
            ELSE IF MatOvf(F) THEN OvfMat(Cols(A), Rows(A))
            ELSE LET pc == PivCols(F)
                     C == TLCEval([i \in 1..Rows(A) |-> [k \in 1..Len(pc) |-> A[i][pc[k]]]])
                     X == MSolve(MMul(F, Tr(F)), MSolve(MMul(Tr(C), C), Tr(C)))
                 IN IF MatOvf(X) THEN OvfMat(Cols(A), Rows(A)) ELSE MMul(Tr(F), X)
Pinv(A) == By1(PinvV, A)
IsSymV(A) == \A i, j \in 1..Rows(A) : A[i][j] = A[j][i]
IsSym(A) == By1(IsSymV, A)
=============================================================================
