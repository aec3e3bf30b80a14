---------------------------- MODULE MC_LinGauss ----------------------------
(* The closed forms of LinGauss have the properties they are used for:       *)
(* exhaustively over small integer problems.                                 *)
EXTENDS LinGauss
CONSTANTS Ent, Dims
VARIABLE p
EntQ == {-1, 0, 2}
DimsQ == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
DimsT == DimsQ \cup {<<2, 2>>}
Ents == {R(n) : n \in Ent}
Vecs(n, S) == {TLCEval([i \in 1..n |-> <<v[i]>>]) : v \in [1..n -> S]}
Cov1 == {<< <<R(2)>> >>, << <<Frac(1, 2)>> >>}
Cov2 == {Eye(2), << <<R(2), One>>, <<One, R(2)>> >>, << <<One, R(-1)>>, <<R(-1), R(3)>> >>}
Covs(n) == IF n = 1 THEN Cov1 ELSE Cov2
ZS == {R(0), R(1), R(-2)}
(* first the map and covariances, then data and mean: successors spread over TLC's workers *)
Init == \E d \in Dims : \E A \in [1..d[1] -> [1..d[2] -> Ents]] :
           p = [k |-> 0, A |-> A]
Choose == /\ p.k = 0
          /\ \E C \in Covs(Cols(p.A)), Co \in Covs(Rows(p.A)) :
             \E y \in Vecs(Rows(p.A), {R(0), R(3)}), m \in Vecs(Cols(p.A), {R(0), R(1)}) :
                LET b == TLCEval([i \in 1..Rows(p.A) |-> <<R(i)>>])
                IN p' = TLCEval([k |-> 1, A |-> p.A, C |-> C, Co |-> Co, y |-> y, m |-> m, b |-> b,
                         Ci |-> MInv(C), Coi |-> MInv(Co), full |-> FullRow(p.A),
                         Pi |-> IF FullRow(p.A) THEN MInv(PredCov(p.A, C)) ELSE <<>>,
                         x |-> Mud(p.A, b, y, m, C)])
Next == Choose
On == p.k = 1

x0 == p.x
Grid(n) == Vecs(n, ZS)
Q(v, W) == MMul(Tr(v), MMul(W, v))[1][1]
Rg(x) == Q(MSub(x, p.m), p.Ci)
Dt(x) == Q(MSub(MAdd(MMul(p.A, x), p.b), p.y), p.Coi)
Pt(x) == Q(MMul(p.A, MSub(x, p.m)), p.Pi)
(* the operators used for recorded executions are these quadratic forms *)
Forms == On => /\ Rg(x0) = RegTerm(p.m, p.C, x0) /\ Dt(x0) = DataTerm(p.A, p.b, p.y, p.Co, x0)
               /\ p.full => Pt(x0) = PrTerm(p.A, p.m, p.C, x0)
Consistent == On => (p.full => MAdd(MMul(p.A, x0), p.b) = p.y)
(* C^-1 (x - m) lies in the row space of A: nothing changes in uninformed directions *)
Stationary == On =>
    LET g == MMul(p.Ci, MSub(x0, p.m))
    IN Rank(p.A \o Tr(g)) = Rank(p.A)
(* among parameters with the same output none is closer to the prior mean *)
Closest == On => LET r0 == Rg(x0) IN \A v \in Grid(Cols(p.A)) :
    MMul(p.A, v) = ColZero(Rows(p.A)) => Le(r0, Rg(MAdd(x0, v)))
ScaleFree == On => x0 = Mud(p.A, p.b, p.y, p.m, MScale(R(3), p.C))
AltAgrees == On => (p.full => MudAlt(p.A, p.b, p.y, p.m, p.C, p.Co) = x0)
MapMinimises == On =>
    LET x == Map(p.A, p.b, p.y, p.m, p.C, p.Co)
        f == Add(Dt(x), Rg(x))
    IN \A v \in Grid(Cols(p.A)) : LET z == MAdd(x, v) IN Le(f, Add(Dt(z), Rg(z)))
MudMinimises == On => (p.full =>
    LET D(z) == Sub(Add(Dt(z), Rg(z)), Pt(z))
        f == D(x0)
    IN \A v \in Grid(Cols(p.A)) : Le(f, D(MAdd(x0, v))))
LsOptimal == On =>
    LET x == Ls(p.A, p.b, p.y)   r == MSub(MSub(p.y, p.b), MMul(p.A, x))
    IN /\ MMul(Tr(p.A), r) = ColZero(Cols(p.A))
       /\ Rank(p.A \o Tr(x)) = Rank(p.A)
CovPush == On =>
    LET U == UpCov(p.A, p.C, p.Co)
    IN /\ IsSym(U)
       /\ p.full => MMul(MMul(p.A, U), Tr(p.A)) = p.Co
       /\ \A v \in Grid(Cols(p.A)) :
             MMul(MMul(p.A, p.C), v) = ColZero(Rows(p.A)) => MMul(U, v) = MMul(p.C, v)
(* rows processed one at a time: each step meets its row, never moves away from a solution *)
RowOf(M, i) == << M[i] >>
Step1(i, x) == Mud(RowOf(p.A, i), RowOf(p.b, i), RowOf(p.y, i), x, p.C)
StepExact == On => \A i \in 1..Rows(p.A) : (Rank(RowOf(p.A, i)) = 1) =>
    MAdd(MMul(RowOf(p.A, i), Step1(i, p.m)), RowOf(p.b, i)) = RowOf(p.y, i)
StepCloser == On => (p.full => \A i \in 1..Rows(p.A) :
    Le(RegTerm(x0, p.C, Step1(i, p.m)), RegTerm(x0, p.C, p.m)))
=============================================================================
