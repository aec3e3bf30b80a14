------------------------------- MODULE T_Bayes -------------------------------
(* Recorded histories of BayesProblem against the lifecycle of Bayes, with   *)
(* every term evaluated exactly.                                             *)
EXTENDS Dist, Obs
VARIABLES c, l, st
NeverV(pr, ll) == FALSE      \* vanishing posteriors are found by evaluation below
INSTANCE Bayes WITH Vanishes <- NeverV

N(cs) == Rows(cs.y)
Domain(cs) == IF cs.domain = <<>> THEN PadBox(Bounds(cs.X), <<1, 10>>) ELSE cs.domain
DomOK(cs) == cs.domain = <<>> \/ Len(cs.domain) = Cols(cs.X)
DistOf(cs, t) == IF t = DefaultPrior THEN UniformOn(Domain(cs)) ELSE t
Vals(cs, p) == LET a == PdfRows(DistOf(cs, p.pr), cs.X)  b == PdfRows(p.ll, cs.y)
               IN TLCEval([i \in 1..N(cs) |-> Mul(a[i], b[i])])
AllZero(u) == \A i \in 1..Len(u) : u[i] = Zero
UFin(u) == \A i \in 1..Len(u) : Fin(u[i])
Live(s) == s # None

InitSt(cs) == None
StepSt(cs, s, ev) ==
    CASE ev.op = "new" -> IF DomOK(cs) THEN BInit ELSE None
      [] ~Live(s) -> s
      [] ev.op = "prior" -> SetPrior(s, IF ev.d.k = "none" THEN DefaultPrior ELSE ev.d)
      [] ev.op = "likelihood" -> SetLik(s, ev.d, ev.log)
      [] ev.op \in {"fit", "map_point", "estimate"} -> Ask(s)
      [] OTHER -> s

Fails(cs, s, t, ev) ==
    CASE ev.op = "new" -> IF DomOK(cs) THEN Clause(ev.obs.k = "none", "accepted:new")
                          ELSE Clause(IsErr(ev.obs), "rejected:new")
      [] ~Live(t) -> {}
      [] ev.op \in {"prior", "likelihood"} -> Clause(ev.obs.k = "none", "accepted:" \o ev.op)
      [] ev.op = "shape" -> Clause(VecIs(ev.obs, <<R(Cols(cs.X)), R(Cols(cs.y)), R(N(cs))>>), "shape")
      [] ev.op = "domain" -> Clause(MatIs(ev.obs, Domain(cs)), "domain")
      [] ev.op = "X" -> Clause(MatIs(ev.obs, cs.X), "samples-kept")
      [] t.Ps = None -> Clause(IsErr(ev.obs), "refused-without-likelihood")
      [] OTHER ->
           LET u == Vals(cs, t.Ps)
           IN IF ~UFin(u) THEN {}
              ELSE IF AllZero(u) THEN Clause(IsErr(ev.obs) /\ ev.obs.t = "ValueError", "vanishing-refused")
              ELSE IF ev.op = "fit" THEN Clause(ev.obs.k = "none", "fit")
              ELSE Clause(\E i \in 1..N(cs) :
                             /\ \A k \in 1..N(cs) : Le(u[k], u[i])
                             /\ ev.obs.k = "arr" /\ ev.obs.shape = <<Cols(cs.X)>> /\ ev.obs.v = cs.X[i], ev.op)
Undecided(cs, s, t, ev) ==
    ev.op \in {"map_point", "estimate"} /\ Live(t) /\ t.Ps # None /\ ~UFin(Vals(cs, t.Ps))
INSTANCE TraceBase
=============================================================================
