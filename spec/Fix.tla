---------------------------------- MODULE Fix ----------------------------------
(* Fixed-point numbers (thousandths, as integers) for quantities that are    *)
(* irrational; matrices are sequences of rows, M[i][j]; empty matrices carry *)
(* their shape separately.  Comparisons take a tolerance in thousandths.     *)
EXTENDS Integers, Sequences, TLC
SC == 1000
FAbs(x) == IF x < 0 THEN -x ELSE x
Rnd(x) == IF x >= 0 THEN (x + SC \div 2) \div SC ELSE -((-x + SC \div 2) \div SC)
FMul(a, b) == Rnd(a * b)
RECURSIVE FSumR(_, _)
FSumR(f, k) == IF k = 0 THEN 0 ELSE f[k] + FSumR(f, k - 1)
FSum(f) == FSumR(f, Len(f))
Near(a, b, tol) == FAbs(a - b) <= tol
(* A: m x k, B: k x n *)
FMM(A, B, m, k, n) == TLCEval([i \in 1..m |-> [j \in 1..n |-> FSum([q \in 1..k |-> FMul(A[i][q], B[q][j])])]])
FT(A, m, n) == TLCEval([j \in 1..n |-> [i \in 1..m |-> A[i][j]]])
FEye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN SC ELSE 0]])
FNear(A, B, m, n, tol) == \A i \in 1..m, j \in 1..n : Near(A[i][j], B[i][j], tol)
FZero(m, n) == [i \in 1..m |-> [j \in 1..n |-> 0]]
Dot(u, v) == FSum([q \in 1..Len(u) |-> FMul(u[q], v[q])])
Orthonormal(W, k, n, tol) == \* k rows of length n
    \A i, j \in 1..k : Near(Dot(W[i], W[j]), IF i = j THEN SC ELSE 0, tol)
(* rows equal up to a sign *)
RowUpToSign(u, v, tol) == \/ \A q \in 1..Len(u) : Near(u[q], v[q], tol)
                          \/ \A q \in 1..Len(u) : Near(u[q], -v[q], tol)
=============================================================================
