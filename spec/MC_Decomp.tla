------------------------------ MODULE MC_Decomp ------------------------------
(* The exact parts over all small matrices: rank and null space agree, and   *)
(* the fixed-point relations accept exact decompositions and nothing nearby. *)
EXTENDS Decomp
CONSTANTS Vals, MaxR, MaxC
ValsT == {-1, 0, 2}
VARIABLES ph, A
Init == ph = 0 /\ A = <<<<Zero>>>>
Next == ph = 0 /\ ph' = 1 /\ \E m \in 1..MaxR, n \in 1..MaxC : \E f \in [1..m -> [1..n -> Vals]] :
          A' = TLCEval([i \in 1..m |-> [j \in 1..n |-> R(f[i][j])]])
MulV(v) == \A i \in 1..Rows(A) : VDot(A[i], v) = Zero
RankNullity == LET B == NullBasis(A)
               IN Cardinality(B) = Cols(A) - RankOf(A) /\ \A v \in B : MulV(v)
Transposed == RankOf(Tr(A)) = RankOf(A)
Gram == RankOf(MMul(Tr(A), A)) = RankOf(A)
(* complex matrices through real ones: the rank is even, twice that of a real (or imaginary, or rotated) matrix *)
ZeroM == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> Zero]])
Half(k) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..(Cols(A) \div 2) |-> A[i][j + k * (Cols(A) \div 2)]]])
ComplexRank == Rows(A) <= 2 =>
               (/\ RankOf(RealOf(A, ZeroM)) = 2 * RankOf(A) /\ RankOf(RealOf(ZeroM, A)) = 2 * RankOf(A)
                /\ RankOf(RealOf(A, A)) = 2 * RankOf(A)
                /\ (Cols(A) >= 2 => RankOf(RealOf(Half(0), Half(1))) % 2 = 0))
(* rank-one matrices have vanishing minors and only those *)
Minors == (RankOf(A) <= 1) = (\A i, p \in 1..Rows(A) : \A j, q \in 1..Cols(A) :
                                 Mul(A[i][j], A[p][q]) = Mul(A[i][q], A[p][j]))
(* a vector of the null space, normalised, is accepted exactly when the null space is a line *)
UnitOf(v) == LET s == SumSeq([i \in 1..Len(v) |-> Mul(v[i], v[i])]) IN RSqrt(s)
Line == \A v \in NullBasis(A) : UnitOf(v) # Ovf /\ UnitOf(v)[2] = 1 /\ UnitOf(v)[1] > 0 =>
           LET Z == [i \in 1..Cols(A) |-> <<ToFix(Div(v[i], UnitOf(v)))>>]
           IN IsNullSpace(A, Z, 1) = (Cols(A) - RankOf(A) = 1)
(* a diagonal matrix: its rank sequence adds the largest entries first *)
DiagSeq == (Rows(A) = 2 /\ Cols(A) = 2 /\ A[1][2] = Zero /\ A[2][1] = Zero) =>
    LET a == A[1][1]  b == A[2][2]
        One1 == FixM(<<<<a, Zero>>, <<Zero, Zero>>>>)
        Two1 == FixM(<<<<Zero, Zero>>, <<Zero, b>>>>)
    IN /\ IsRankSeq(A, <<One1, FixM(A)>>) = Le(RAbs(b), RAbs(a))
       /\ IsRankSeq(A, <<Two1, FixM(A)>>) = Le(RAbs(a), RAbs(b))
(* a permutation is a singular value decomposition of itself *)
SvdAccepts == A = Eye(Rows(A)) => LET I == FEye(Rows(A)) n == Rows(A) IN
    IsSvd(I, n, n, I, [i \in 1..n |-> SC], I, TRUE)
=============================================================================
