------------------------------- MODULE T_Spatio -------------------------------
(* Recorded histories of SpatioTemporalProblem against Spatio.               *)
EXTENDS Spatio, Obs
VARIABLES c, l, st

VecA(w) == Ar(<<Len(w)>>, w)
InitSt(cs) == Empty
LoadOf(s, ev) == Load(s, ev.ds, ev.kw)
(* drawing measurements: the remembered parts are set first *)
RefState(s, ev) ==
    LET a == IF ev.ref = NN THEN s ELSE Assign(s, "true_vals", ev.ref)
    IN IF ev.sd = NN THEN a ELSE [a EXCEPT !.std_dev = ev.sd]
RefOk(s, ev) == /\ ev.ref # NN => Ok(s, "true_vals", ev.ref)
                /\ LET a == RefState(s, ev) IN IsSet(a.true_vals) /\ IsSet(a.std_dev)
StepSt(cs, s, ev) ==
    CASE ev.op = "set" -> Assign(s, ev.f, ev.v)
      [] ev.op = "load" -> (LET r == LoadOf(s, ev) IN r.s)
      [] ev.op = "mref" -> (IF RefOk(s, ev)
                            THEN LET a == RefState(s, ev)
                                 IN IF ev.sd0 THEN [a EXCEPT !.measurements = a.true_vals]
                                    ELSE IF IsArr(ev.all.measurements)   \* noisy: taken as observed
                                         THEN [a EXCEPT !.measurements = Ar(ev.all.measurements.shape, ev.all.measurements.v)]
                                         ELSE a
                            ELSE s)
      [] OTHER -> s

ObsIs(o, v) == CASE v.k = "none" -> IsNone(o)
                 [] v.k = "str" -> o.k = "str" /\ o.s = v.s
                 [] OTHER -> ArrIs(o, v.shape, v.v)
AllRead(o, s) == UNION {Clause(ObsIs(o[f], s[f]), "reads:" \o f) : f \in Fields}
CountOf(s, n) ==
    CASE n = "n_samples" -> IF IsSet(s.lam) THEN NR(s.lam) ELSE -1
      [] n = "n_sensors" -> IF IsSet(s.sensors) THEN NR(s.sensors) ELSE -1
      [] n = "n_ts" -> IF IsSet(s.times) THEN NR(s.times) ELSE -1
      [] n = "n_params" -> IF IsSet(s.domain) THEN NR(s.domain) ELSE -1
Plus(sg, o, e) == \A i \in 1..Len(e) : EqR(o[i], IF sg = 1 THEN e[i] ELSE Neg(e[i]))
UpToSign(o, e) == Len(o) = Len(e) /\ (Plus(1, o, e) \/ Plus(-1, o, e))
MudOk(s, ev) == /\ IsSet(s.measurements) /\ IsSet(s.std_dev)
                /\ ev.method \in {"wme", "pca", "svd"}
                /\ ev.w # <<>> => Len(ev.w) = Len(SelCols(s, ev.em, ev.tm))
MudFails(s, ev) ==
    LET Q == Residuals(s, ev.sm, ev.em, ev.tm, ev.w)
        n == Rows(Q)
    IN Clause(ObsIs(ev.X, SubLam(s, ev.sm)), "samples-passed-on") \cup
       Clause(ObsIs(ev.domain, s.domain), "domain-passed-on") \cup
       CASE ev.method = "wme" -> Clause(ArrIs(ev.y, <<n, 1>>, WmeRaw(Q)), "wme-map")
         [] Cols(Q) = 2 ->
              Clause(/\ IsArr(ev.y) /\ ev.y.shape = <<n, ev.nc>> /\ Len(ev.y.v) = n * ev.nc
                     /\ \A k \in 1..ev.nc : UpToSign([i \in 1..n |-> ev.y.v[(i - 1) * ev.nc + k]], Princ2(Q, k)),
                     ev.method \o "-map")
         [] OTHER -> Clause(IsArr(ev.y) /\ ev.y.shape = <<n, ev.nc>>, ev.method \o "-count")

Fails(cs, s, t, ev) ==
    CASE ev.op = "set" ->
           (IF Ok(s, ev.f, ev.v) THEN Clause(ev.obs.k = "none", "accepted:" \o ev.f)
            ELSE Clause(IsErr(ev.obs), "refused:" \o ev.f)) \cup AllRead(ev.all, t)
      [] ev.op = "counts" ->
           UNION {LET n == CountOf(t, f)
                  IN Clause(IF n < 0 THEN IsErr(ev.o[f]) /\ ev.o[f].t = "AttributeError"
                            ELSE Scalar(ev.o[f], R(n)), f) : f \in DOMAIN ev.o}
      [] ev.op = "load" ->
           IF LoadOf(s, ev).ok THEN Clause(ev.obs.k = "none", "accepted:load") \cup AllRead(ev.all, t)
           ELSE Clause(IsErr(ev.obs), "refused:load")
      [] ev.op = "validate" ->
           LET m == Missing(t, ev.meas, ev.true)
           IN IF m = {} THEN Clause(ev.obs.k = "none", "validates")
              ELSE Clause(IsErr(ev.obs) /\ ev.obs.t = "ValueError", "validate-refuses") \cup
                   Clause({ev.named[i] : i \in 1..Len(ev.named)} = m, "names-missing")
      [] ev.op = "mref" ->
           IF ~RefOk(s, ev) THEN Clause(IsErr(ev.obs), "refused:measurements_from_reference")
           ELSE Clause(ev.obs.k = "none", "accepted:measurements_from_reference") \cup AllRead(ev.all, t)
      [] ev.op = "sample" ->
           IF ~IsSet(t.data) THEN Clause(IsErr(ev.lam) /\ ev.lam.t = "AttributeError", "sample:refused")
           ELSE Clause(ObsIs(ev.lam, SubLam(t, ev.sm)), "sub-parameters") \cup
                Clause(ObsIs(ev.times, SubTimes(t, ev.tm)), "sub-times") \cup
                Clause(ObsIs(ev.sensors, SubSensors(t, ev.em)), "sub-sensors") \cup
                Clause(ObsIs(ev.data, SubData(t, ev.sm, ev.em, ev.tm)), "sub-data") \cup
                Clause(IF IsSet(t.measurements) THEN ObsIs(ev.meas, SubVec(t, t.measurements, ev.em, ev.tm))
                       ELSE IsNone(ev.meas), "sub-measurements")
      [] ev.op = "nearest" ->
           LET of == IF ev.what = "true" THEN t.true_vals ELSE t.measurements
               ok == IsSet(t.data) /\ IsSet(of)
           IN IF ~ok THEN Clause(IsErr(ev.obs), "nearest:refused")
              ELSE LET L == SubLam(t, ev.sm)
                       I == Nearest(SubData(t, ev.sm, ev.em, ev.tm), SubVec(t, of, ev.em, ev.tm))
                   IN Clause(\E i \in I : ArrIs(ev.obs, <<NC(L)>>, RowOfA(L, i)), "nearest:" \o ev.what)
      [] ev.op = "mud" ->
           IF ~MudOk(t, ev) THEN Clause(IsErr(ev.y), "mud_problem:refused") ELSE MudFails(t, ev)
      [] ev.op = "again" -> AllRead(ev.all, t)
UndecA(a) == UndecSeq(a.v)
Undecided(cs, s, t, ev) ==
    ev.op = "mud" /\ MudOk(t, ev) /\ LET Q == Residuals(t, ev.sm, ev.em, ev.tm, ev.w) IN UndecSeq(Flat(Q))
INSTANCE TraceBase
=============================================================================
