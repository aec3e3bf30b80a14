--------------------------------- MODULE Wrap ---------------------------------
(* The one-call wrappers.  Q: simulated data (rows are samples), t: noiseless *)
(* data, sd: noise level, nobs: number of observables used (0: all), split:  *)
(* groups of columns (<<>>: one group of all).  Values of a group are taken  *)
(* times the square root of its size and with the drawn noise taken out, so  *)
(* that they are rational.                                                   *)
EXTENDS Spatio

NObs(Q, nobs) == IF nobs = 0 THEN Cols(Q) ELSE nobs
OkObsNum(Q, nobs, given) == given => nobs >= 1 /\ nobs <= Cols(Q)
KeepLess(g, k) == SelectSeq(g, LAMBDA j : j <= k)
Groups(Q, nobs, split) ==
    LET k == NObs(Q, nobs)
    IN IF split = <<>> THEN <<[j \in 1..k |-> j]>> ELSE TLCEval([i \in 1..Len(split) |-> KeepLess(split[i], k)])
GroupVal(Q, t, sd, g, i) == SumSeq([q \in 1..Len(g) |-> Div(Sub(Q[i][g[q]], t[g[q]]), sd)])
WrapQoi(Q, t, sd, nobs, split) ==
    LET G == Groups(Q, nobs, split)
    IN TLCEval([i \in 1..Rows(Q) |-> [h \in 1..Len(G) |-> GroupVal(Q, t, sd, G[h], i)]])
(* squared distance of a sample's first observables from the data *)
Misfit(Q, d, i) == SumSeq([q \in 1..Len(d) |-> LET z == Sub(Q[i][q], d[q]) IN Mul(z, z)])
InBox(x, box) == \A j \in 1..Len(x) : Inside(x[j], box[j][1], box[j][2])
(* samples that are most likely, with a uniform prior over the box, to within slack *)
MostLikely(X, Q, d, box, slack) ==
    LET I == {i \in 1..Rows(Q) : InBox(X[i], box)}
        M == TLCEval([i \in 1..Rows(Q) |-> Misfit(Q, d, i)])
    IN {i \in I : \A k \in I : Le(M[i], Add(M[k], slack))}
=============================================================================
