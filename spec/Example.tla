------------------------------- MODULE Example -------------------------------
(* Example generators: sizes, domains, model values, noise, reproducibility. *)
EXTENDS Mat, Fix
PolyQ(lam, p) == [i \in 1..Len(lam) |-> RPow(lam[i], p)]
(* measured values of a linear map with the drawn noise taken out *)
LinearTrue(M, ref, num) == LET t == [i \in 1..Rows(M) |-> VDot(M[i], ref)]
                           IN IF Rows(M) = 1 THEN [i \in 1..num |-> t[1]] ELSE t
OkLinear(M, ref, nstd, num) == Cols(M) = Len(ref) /\ Rows(M) \in {1, num} /\ nstd \in {0, num}   \* nstd = 0: one level for all
(* rotation rows (sin, cos) of n angles equally spaced over half a turn, in thousandths *)
RotationRows(A, n, tol) ==
    /\ \A i \in 1..n : Near(FMul(A[i][1], A[i][1]) + FMul(A[i][2], A[i][2]), SC, tol)
    /\ Near(A[1][1], 0, tol) /\ Near(A[1][2], SC, tol)
    /\ n > 1 => (Near(A[n][1], 0, tol) /\ Near(A[n][2], -SC, tol))
    /\ n > 2 => \A i \in 2..(n - 1) : \A j \in 1..2 : Near(A[i - 1][j] + A[i + 1][j], 2 * FMul(A[2][2], A[i][j]), tol)
    /\ \A i \in 1..n : A[i][1] >= -tol
RotationData(A, ref, b, n) == [i \in 1..n |-> FMul(A[i][1], ref[1]) + FMul(A[i][2], ref[2]) + b[i]]
(* one draw: the same for the same seed, another for another seed *)
Reproducible(same, other) == same /\ other
=============================================================================
