-------------------------------- MODULE Views --------------------------------
(* One affine Gaussian problem seen through every part of the library: by    *)
(* samples (density and Bayesian problems), in closed form, by functionals,  *)
(* row by row, and through weighted mean error maps.  A problem is a record  *)
(* A, b, y, m (columns), C, Co.                                              *)
EXTENDS IterLin, Wme

(* minus twice the logarithm of the updated (posterior) density, up to a     *)
(* constant: initial x observed / predicted (prior x likelihood) Gaussians   *)
LogUp(pb, x) == DcFun(pb.A, pb.b, pb.y, pb.m, pb.C, pb.Co, x)
LogPost(pb, x) == BayesFun(pb.A, pb.b, pb.y, pb.m, pb.C, pb.Co, x)
MudPt(pb) == Mud(pb.A, pb.b, pb.y, pb.m, pb.C)
MapPt(pb) == Map(pb.A, pb.b, pb.y, pb.m, pb.C, pb.Co)

(* the sampled answer: a sample of positive weight where the function is least *)
Vals(F(_), X) == TLCEval([i \in 1..Rows(X) |-> F(Col(X[i]))])
Argmin(v, live) == {i \in live : \A j \in live : Le(v[i], v[j])}

(* a weighted mean error map of linear predictions with unit observed        *)
(* variance is the unscaled residual sum with variance N                     *)
WmeView(op, d, sd, m, C) ==
    [A |-> << LinRawA(op, d, sd) >>, b |-> << <<LinRawB(d, sd)>> >>, y |-> << <<Zero>> >>,
     m |-> m, C |-> C, Co |-> << <<R(Len(d))>> >>]
(* several quantities of interest, each a weighted mean error map of its own: *)
(* one row per quantity; qs[k] = [op, d, sd]                                 *)
GroupsView(qs, m, C) ==
    [A |-> TLCEval([k \in 1..Len(qs) |-> LinRawA(qs[k].op, qs[k].d, qs[k].sd)]),
     b |-> TLCEval([k \in 1..Len(qs) |-> << LinRawB(qs[k].d, qs[k].sd) >>]),
     y |-> ColZero(Len(qs)), m |-> m, C |-> C,
     Co |-> TLCEval([i \in 1..Len(qs) |-> [j \in 1..Len(qs) |-> IF i = j THEN R(Len(qs[i].d)) ELSE Zero]])]
(* all data kept apart, as a Bayesian problem sees them *)
DataView(op, d, sd, m, C) ==
    [A |-> TLCEval([j \in 1..Len(d) |-> Row(op, j)]), b |-> ColZero(Len(d)), y |-> Col(d), m |-> m, C |-> C,
     Co |-> TLCEval([i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN Mul(sd[i], sd[i]) ELSE Zero]])]

(* rows orthogonal with respect to the prior covariance *)
Orthogonal(pb) == LET P == PredCov(pb.A, pb.C)
                  IN \A i, j \in 1..Rows(P) : (i # j) => P[i][j] = Zero
=============================================================================
