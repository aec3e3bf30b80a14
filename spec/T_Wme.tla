-------------------------------- MODULE T_Wme --------------------------------
(* Recorded calls of the weighted mean error functions and classes.          *)
(* Observed values of a map over N data are recorded times sqrt(N).          *)
EXTENDS Wme, LinGauss, Obs
VARIABLES c, l, st

InitSt(cs) == [k |-> 0]
StepSt(cs, s, ev) == [k |-> s.k + 1]

OkQ(q) == Accept(q.op, q.d, q.sdk, q.sd)
QA(q) == LinRawA(q.op, q.d, Levels(q.d, q.sdk, q.sd))
QB(q) == LinRawB(q.d, Levels(q.d, q.sdk, q.sd))
AllOk(cs) == \A i \in 1..Len(cs.q) : OkQ(cs.q[i])
RawA(cs) == TLCEval([i \in 1..Len(cs.q) |-> QA(cs.q[i])])
RawB(cs) == TLCEval([i \in 1..Len(cs.q) |-> <<QB(cs.q[i])>>])
Fac(q) == RSqrt(<<1, Len(q.d)>>)
ScA(cs) == TLCEval([i \in 1..Len(cs.q) |-> [k \in 1..Cols(cs.q[i].op) |-> Mul(Fac(cs.q[i]), QA(cs.q[i])[k])]])
ScB(cs) == TLCEval([i \in 1..Len(cs.q) |-> <<Mul(Fac(cs.q[i]), QB(cs.q[i]))>>])
Di(cs) == Cols(cs.q[1].op)
MeanC(cs) == IF cs.m = <<>> THEN ColZero(Di(cs)) ELSE Col(cs.m)
CovC(cs) == IF cs.C = <<>> THEN Eye(Di(cs)) ELSE cs.C
(* solutions: the factor is immaterial for the data-consistent one with zero y *)
SolW(cs, method) ==
    LET z == ColZero(Len(cs.q))
        yy == IF cs.y = <<>> THEN z ELSE Col(cs.y)
    IN CASE method = "mud" -> IF cs.y = <<>> /\ FullRow(RawA(cs))
                              THEN Mud(RawA(cs), RawB(cs), z, MeanC(cs), CovC(cs))
                              ELSE Mud(ScA(cs), ScB(cs), yy, MeanC(cs), CovC(cs))
         [] method = "map" -> Map(ScA(cs), ScB(cs), yy, MeanC(cs), CovC(cs), Eye(Len(cs.q)))

Lens(ev) == Cols(ev.P) = Len(ev.d)
Sds(ev) == LET v == IF ev.sd = <<>> THEN Std(ev.d) ELSE ev.sd[1] IN [j \in 1..Len(ev.d) |-> v]
Fails(cs, s, t, ev) ==
    CASE ev.op = "wme" ->
           IF ~Lens(ev) THEN Clause(IsErr(ev.obs), "wme:length-refused")
           ELSE Clause(VecIs(ev.obs, WmeRows(ev.P, ev.d, Sds(ev))), "wme")
      [] ev.op = "map1" ->
           LET q == cs.q[ev.i]
           IN IF ~OkQ(q) THEN Clause(IsErr(ev.A), "transform:refused")
              ELSE Clause(ValsAre(ev.A, QA(q)), "transform:A") \cup Clause(Scalar(ev.b, QB(q)), "transform:b")
      [] ev.op \in {"setup", "class"} ->
           IF ~AllOk(cs) THEN Clause(IsErr(ev.A), ev.op \o ":refused")
           ELSE Clause(MatIs(ev.A, RawA(cs)), ev.op \o ":A") \cup Clause(MatIs(ev.b, RawB(cs)), ev.op \o ":b")
      [] ev.op = "lists" ->     \* every operator has its data, and every quantity its level
           Clause(ListsOk(ev.no, ev.nd, ev.ns) \/ IsErr(ev.obs), "lists-refused")
      [] ev.op = "solve" -> Clause(ArrIs(ev.obs, <<Di(cs), 1>>, Flat(SolW(cs, ev.method))), "solve:" \o ev.method)
Undecided(cs, s, t, ev) ==
    CASE ev.op = "solve" -> UndecSeq(Flat(SolW(cs, ev.method)))
      [] ev.op = "wme" -> Lens(ev) /\ UndecSeq(WmeRows(ev.P, ev.d, Sds(ev)))
      [] OTHER -> FALSE
INSTANCE TraceBase
=============================================================================
