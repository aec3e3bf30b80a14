------------------------------ MODULE MC_Views ------------------------------
(* The views of Views agree: exhaustively over small integer problems.       *)
EXTENDS Views
CONSTANTS Dims, Ys, Gs
VARIABLE p
DimsQ == {<<1, 1>>, <<1, 2>>, <<2, 2>>}
DimsT == DimsQ \cup {<<1, 3>>}
YsQ == {R(3)}
YsT == {R(0), R(3)}
GsQ == {R(0), R(3)}
GsT == {R(-1), R(0), R(3)}
E == {R(-1), R(0), R(2)}
Seqs(n, S) == {TLCEval(f) : f \in [1..n -> S]}
Cov1 == {<< <<R(2)>> >>, << <<Frac(1, 2)>> >>}
Cov2 == {<< <<R(2), Zero>>, <<Zero, One>> >>, << <<One, R(-1)>>, <<R(-1), R(3)>> >>}
Cov3 == {<< <<R(2), One, Zero>>, <<One, R(2), Zero>>, <<Zero, Zero, One>> >>}
Covs(n) == IF n = 1 THEN Cov1 ELSE IF n = 2 THEN Cov2 ELSE Cov3
Init == \E d \in Dims : \E A \in Seqs(d[1], Seqs(d[2], E)) : FullRow(A) /\ p = [k |-> 0, A |-> A]
Fill == /\ p.k = 0
        /\ \E C \in Covs(Cols(p.A)), Co \in Covs(Rows(p.A)) :
           \E y \in Seqs(Rows(p.A), Ys) :
              LET m == Col([i \in 1..Cols(p.A) |-> R(i - 1)])
                  b == Col([i \in 1..Rows(p.A) |-> R(2 - i)])
                  pb == TLCEval([A |-> p.A, b |-> b, y |-> Col(y), m |-> m, C |-> C, Co |-> Co])
              IN p' = TLCEval([k |-> 1, A |-> p.A, pb |-> pb, mud |-> MudPt(pb), map |-> MapPt(pb),
                               up |-> UpCov(pb.A, pb.C, pb.Co), post |-> PostCov(pb.A, pb.C, pb.Co)])
Next == Fill
On == p.k = 1
Grid == {Col(v) : v \in Seqs(Cols(p.A), Gs)}
(* the updated density is Gaussian: the closed form is its mean, the updated covariance its covariance *)
UpdatedGaussian == On => \A x \in Grid :
    Sub(LogUp(p.pb, x), LogUp(p.pb, p.mud)) = Ip(MSub(x, p.mud), p.up)
PosteriorGaussian == On => \A x \in Grid :
    Sub(LogPost(p.pb, x), LogPost(p.pb, p.map)) = Ip(MSub(x, p.map), p.post)
(* its push-forward through the map is the observed density *)
PushForward == On => /\ MAdd(MMul(p.A, p.mud), p.pb.b) = p.pb.y
                     /\ MMul(MMul(p.A, p.up), Tr(p.A)) = p.pb.Co
(* orthogonal rows: one pass over the rows, in any order, is the direct solution *)
Orders == {o \in [1..Rows(p.A) -> 1..Rows(p.A)] : \A i, j \in 1..Rows(p.A) : i # j => o[i] # o[j]}
OnePass == On => (Orthogonal(p.pb) => \A o \in Orders :
    LET ch == Epoch(p.pb, o, p.pb.m, "mud") IN ch[Len(ch)] = p.mud)
(* the sample nearest the closed form in the updated covariance is the sampled answer *)
Nearest == On =>
    LET X == << Flat(p.pb.m), [i \in 1..Cols(p.A) |-> R(2)], [i \in 1..Cols(p.A) |-> R(-1)] >>
        v == Vals(LAMBDA x : LogUp(p.pb, x), X)
        w == Vals(LAMBDA x : Ip(MSub(x, p.mud), p.up), X)
    IN /\ Argmin(v, {1, 2, 3}) = Argmin(w, {1, 2, 3})
       /\ Argmin(v, {1, 2}) = Argmin(w, {1, 2})
(* the same row observed N times with the same noise: the variance along it is sd^2 / N, the mean the data's mean *)
Repeated == On => (Rows(p.A) = 1 => \A d \in Seqs(3, {R(0), R(3)}) : \A n \in 1..3 :
    LET dd == SubSeq(d, 1, n)
        s == Frac(1, 2)
        v == WmeView(p.A, dd, [j \in 1..n |-> s], p.pb.m, p.pb.C)
        u == UpCov(v.A, v.C, v.Co)
    IN /\ MMul(p.A, MudPt(v))[1][1] = Mean(dd)
       /\ MMul(MMul(p.A, u), Tr(p.A))[1][1] = Div(Mul(s, s), R(n)))
=============================================================================
