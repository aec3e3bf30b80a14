------------------------------ MODULE T_Example ------------------------------
(* Recorded calls of the example generators.                                 *)
EXTENDS Example, Obs
VARIABLES c, l, st
InitSt(cs) == [k |-> 0]
StepSt(cs, s, ev) == [k |-> s.k + 1]
Fails(cs, s, t, ev) ==
    CASE ev.op = "poly" ->
           Clause(ArrIs(ev.lam, <<Len(ev.x), 1>>, ev.x), "poly:samples") \cup
           Clause(ArrIs(ev.q, <<Len(ev.x), 1>>, PolyQ(ev.x, ev.p)), "poly:model") \cup
           Clause(IF ev.N = 1 THEN VecIs(ev.data, <<ev.mu>>) ELSE VecIs(ev.unit, [i \in 1..ev.N |-> ev.level]), "poly:data")
      [] ev.op = "polyLevel" -> Clause(ev.level = ev.sigma, "poly:noise-level")
      [] ev.op = "polyDomain" -> Clause(ev.inside = ev.n, "poly:domain")
      [] ev.op = "noisy" ->
           IF ~OkLinear(ev.M, ev.ref, ev.nstd, ev.num) THEN Clause(IsErr(ev.out), "noisy:refused")
           ELSE Clause(VecIs(ev.out, LinearTrue(ev.M, ev.ref, ev.num)), "noisy:values")
      [] ev.op = "rotation" ->
           Clause(RotationRows(ev.A, ev.n, 6), "rotation:map") \cup
           Clause(LET y == RotationData(ev.A, ev.ref, ev.b, ev.n) IN \A i \in 1..ev.n : Near(ev.y[i], y[i], 6), "rotation:data") \cup
           Clause(ev.cov = <<<<ev.sd, 0>>, <<0, ev.sd>>>>, "rotation:covariance")
      [] ev.op = "draws" ->   \* reproducible with a seed, another draw for another seed
           Clause(ev.ran, ev.name \o ":runs") \cup Clause(ev.ran => ev.same, ev.name \o ":reproducible") \cup
           Clause(ev.ran => ev.differs, ev.name \o ":other-seed")
      [] ev.op = "problem" -> \* sizes, containment, residual of the stated model
           Clause(ev.ran, ev.name \o ":runs") \cup Clause(ev.ran => ev.shape = ev.want, ev.name \o ":size") \cup
           Clause(ev.ran => ev.inside, ev.name \o ":domain") \cup Clause(ev.ran => ev.model, ev.name \o ":model")
Undecided(cs, s, t, ev) ==
    CASE ev.op = "poly" -> UndecSeq(PolyQ(ev.x, ev.p))
      [] ev.op = "noisy" -> OkLinear(ev.M, ev.ref, ev.nstd, ev.num) /\ UndecSeq(LinearTrue(ev.M, ev.ref, ev.num))
      [] OTHER -> FALSE
INSTANCE TraceBase
=============================================================================
