------------------------------ MODULE LinGauss ------------------------------
(* Affine Gaussian problems: A x + b observed as y with covariance Co, prior *)
(* mean m (column) and covariance C.  b, y, m are column matrices.           *)
EXTENDS Mat

ColZero(n) == TLCEval([i \in 1..n |-> <<Zero>>])
Resid(A, b, y, m) == MSub(MSub(y, b), MMul(A, m))

(* gain of the data-consistent update: C A^T (A C A^T)^+ *)
PredCov(A, C) == MMul(MMul(A, C), Tr(A))
Gain(A, C) == MMul(MMul(C, Tr(A)), Pinv(PredCov(A, C)))
Mud(A, b, y, m, C) == MAdd(m, MMul(Gain(A, C), Resid(A, b, y, m)))

(* posterior precision, covariance and mean *)
PostCov(A, C, Co) == MInv(MAdd(MMul(MMul(Tr(A), MInv(Co)), A), MInv(C)))
Map(A, b, y, m, C, Co) ==
    MAdd(m, MMul(MMul(MMul(PostCov(A, C, Co), Tr(A)), MInv(Co)), Resid(A, b, y, m)))
Ls(A, b, y) == MMul(Pinv(A), MSub(y, b))
UpCov(A, C, Co) ==
    LET K == Gain(A, C)
    IN MSub(C, MMul(MMul(K, MSub(PredCov(A, C), Co)), Tr(K)))
MudAlt(A, b, y, m, C, Co) ==
    MAdd(m, MMul(MMul(MMul(UpCov(A, C, Co), Tr(A)), MInv(Co)), Resid(A, b, y, m)))

(* squared norm of a column in the inverse of a covariance *)
Ip(v, C) == MMul(Tr(v), MMul(MInv(C), v))[1][1]
(* functionals at one parameter (column) *)
DataTerm(A, b, y, Co, x) == Ip(MSub(MAdd(MMul(A, x), b), y), Co)
RegTerm(m, C, x) == Ip(MSub(x, m), C)
PrTerm(A, m, C, x) == Ip(MMul(A, MSub(x, m)), PredCov(A, C))
BayesFun(A, b, y, m, C, Co, x) == Add(DataTerm(A, b, y, Co, x), RegTerm(m, C, x))
DcFun(A, b, y, m, C, Co, x) == Sub(BayesFun(A, b, y, m, C, Co, x), PrTerm(A, m, C, x))

FullRow(A) == Rank(A) = Rows(A)
=============================================================================
