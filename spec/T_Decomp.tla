------------------------------- MODULE T_Decomp -------------------------------
(* Recorded decompositions and noise utilities. *)
EXTENDS Decomp, Obs
VARIABLES c, l, st
InitSt(cs) == [k |-> 0]
StepSt(cs, s, ev) == [k |-> s.k + 1]
SvdV(ev, X) == IsSvd(Std1(X, ev.sd), Rows(X), Cols(X), ev.U, ev.s, ev.V, ev.full)
PcaV(ev, X) == IsPca(Std1(X, ev.sd), Rows(X), Cols(X), ev.k, ev.C, ev.T, ev.v)
Fails(cs, s, t, ev) ==
    CASE ev.op = "refused" -> Clause(IsErr(ev.obs) /\ ev.obs.t = "ValueError", ev.fn \o ":refused")
      [] ev.op = "noise" -> Clause(ArrIs(ev.obs, ev.shape, ev.v), "add-noise")
      [] ev.op = "std" -> Clause(Near(FMul(ev.obs, ev.quantile), ev.tol, 2 + ev.tol \div 200), "std-from-equipment")
      [] ev.err -> {ev.op \o ":raised"}
      [] ev.op = "null_space" -> Clause(IsNullSpace(ev.A, ev.Z, ev.k), "null-space")
      [] ev.op = "null_space_c" -> Clause(IsNullSpaceC(ev.A, ev.B, ev.Z, ev.W, ev.k), "null-space:complex")
      [] ev.op = "svd" -> Clause(SdOk(ev.X, ev.sd), "witness") \cup Clause(By2(SvdV, ev, ev.X), "svd")
      [] ev.op = "pca" -> Clause(SdOk(ev.X, ev.sd), "witness") \cup Clause(By2(PcaV, ev, ev.X), "pca") \cup
             Clause(\A i \in {j \in 1..ev.k : j <= Len(ev.C) /\ j <= Len(ev.Cf)} : ev.same[i] => RowUpToSign(ev.C[i], ev.Cf[i], 12), "pca:leading")
      [] ev.op = "rank" -> Clause(IsRankSeq(ev.A, ev.L), "rank-decomposition")
Undecided(cs, s, t, ev) == FALSE
INSTANCE TraceBase
=============================================================================
