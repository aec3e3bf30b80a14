-------------------------------- MODULE T_Wrap --------------------------------
(* Recorded wrapper calls. *)
EXTENDS Wrap, Obs
VARIABLES c, l, st
InitSt(cs) == [k |-> 0]
StepSt(cs, s, ev) == [k |-> s.k + 1]
ObsIsA(o, a) == ArrIs(o, a.shape, a.v)
DPState(ev) == Load(Empty, ev.ds, <<>>)
Fails(cs, s, t, ev) ==
    CASE ev.op = "mud" ->
           IF ~OkObsNum(cs.Q, ev.nobs, ev.given) THEN Clause(IsErr(ev.y) /\ ev.y.t = "ValueError", "mud:number-refused")
           ELSE Clause(MatIs(ev.y, WrapQoi(cs.Q, cs.t, cs.sd, ev.nobs, ev.split)), "mud:values") \cup
                Clause(MatIs(ev.X, cs.X), "mud:samples") \cup Clause(MatIs(ev.domain, cs.domain), "mud:domain")
      [] ev.op = "map" ->
           IF ~OkObsNum(cs.Q, ev.nobs, ev.given) THEN Clause(IsErr(ev.y) /\ ev.y.t = "ValueError", "map:number-refused")
           ELSE Clause(MatIs(ev.y, [i \in 1..Rows(cs.Q) |-> SubSeq(cs.Q[i], 1, NObs(cs.Q, ev.nobs))]), "map:observables") \cup
                Clause(MatIs(ev.X, cs.X), "map:samples") \cup Clause(MatIs(ev.domain, cs.domain), "map:domain") \cup
                (LET I == MostLikely(cs.X, cs.Q, ev.d, cs.domain, ev.slack)
                 IN Clause(IF ev.pt.k = "skip" THEN TRUE ELSE IF \E i \in 1..Rows(cs.X) : InBox(cs.X[i], cs.domain)
                           THEN \E i \in I : ArrIs(ev.pt, <<Cols(cs.X)>>, cs.X[i])
                           ELSE IsErr(ev.pt), "map:point"))
      [] ev.op = "data_prob" ->
           LET r == DPState(ev)
           IN IF ~r.ok \/ ~IsSet(r.s.measurements) THEN Clause(IsErr(ev.y), "data_prob:refused")
              ELSE Clause(ObsIsA(ev.X, r.s.lam), "data_prob:samples") \cup
                   Clause(ObsIsA(ev.domain, r.s.domain), "data_prob:domain") \cup
                   Clause(ArrIs(ev.y, <<NR(r.s.lam), 1>>, WmeRaw(Residuals(r.s, NN, NN, NN, <<>>))), "data_prob:values")
Undecided(cs, s, t, ev) == ev.op = "mud" /\ OkObsNum(cs.Q, ev.nobs, ev.given) /\
                           UndecSeq(Flat(WrapQoi(cs.Q, cs.t, cs.sd, ev.nobs, ev.split)))
INSTANCE TraceBase
=============================================================================
