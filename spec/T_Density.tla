------------------------------ MODULE T_Density ------------------------------
(* Recorded histories of DensityProblem against the lifecycle of Density,    *)
(* with every cached term evaluated exactly.                                 *)
EXTENDS Density, Dist, Obs
VARIABLES c, l, st

N(cs) == Rows(cs.y)
(* one weight per sample: the rows of a stack multiply *)
RowsOf(w) == w.rows
OnesW(n) == [i \in 1..n |-> One]
RawW(w, n) == IF w.k = "none" THEN OnesW(n)
              ELSE TLCEval([i \in 1..n |-> ProdSeq([r \in 1..Len(w.rows) |-> w.rows[r][i]])])
Norm2(s) == RSqrt(SumSeq([i \in 1..Len(s) |-> Mul(s[i], s[i])]))
Weights(w, norm, n) ==
    LET raw == RawW(w, n)
    IN IF norm /\ w.k # "none"
       THEN LET m == Norm2(raw) IN TLCEval([i \in 1..n |-> Div(raw[i], m)])
       ELSE raw
WOK(w, n) == w.k = "none" \/ \A r \in 1..Len(w.rows) : Len(w.rows[r]) = n

Domain(cs) == IF cs.domain = <<>> THEN PadBox(Bounds(cs.X), cs.pad) ELSE cs.domain
DomOK(cs) == cs.domain = <<>> \/ Len(cs.domain) = Cols(cs.X)

(* ---- exact values of terms ---- *)
DistOf(cs, t) == IF t = DefaultInitial THEN UniformOn(Domain(cs)) ELSE t
InVals(cs, t) == PdfRows(DistOf(cs, t), cs.X)
YVals(cs, t) == PdfRows(t, cs.y)
(* a sample of weight zero, or of zero observed or initial density, contributes *)
(* nothing, also where the predicted density vanishes                          *)
Ratio(cs, up) == LET o == YVals(cs, up.ob)   p == YVals(cs, up.pr.d)
                 IN TLCEval([i \in 1..N(cs) |-> IF o[i] = Zero \/ up.w[i] = Zero THEN Zero ELSE Div(o[i], p[i])])
UpVals(cs, up) == LET i0 == InVals(cs, up.in)  r == Ratio(cs, up)
                  IN TLCEval([i \in 1..N(cs) |-> LET a == Mul(i0[i], up.w[i]) IN IF a = Zero THEN Zero ELSE Mul(a, r[i])])
ERatio(cs, up) == LET r == Ratio(cs, up)
                  IN Div(SumSeq([i \in 1..N(cs) |-> Mul(up.w[i], r[i])]), SumSeq(up.w))

Asks == {"mud_point", "estimate", "expected_ratio", "peek", "fit"}
Setters == {"weights", "initial", "observed", "predicted"}
Live(s) == s # None

(* settings whose exact answer the module can compute *)
ExactAnswer(a) == a.ob # DefaultObserved /\ ~IsKDE(a.pr.d)

InitSt(cs) == None
StepSt(cs, s, ev) ==
    IF ev.op = "new"
    THEN IF DomOK(cs) /\ WOK(ev.w, N(cs)) THEN DInit(Weights(ev.w, ev.norm, N(cs))) ELSE None
    ELSE IF ~Live(s) THEN s
    ELSE CASE ev.op = "weights" -> IF WOK(ev.w, N(cs)) THEN SetWeights(s, Weights(ev.w, ev.norm, N(cs))) ELSE s
           [] ev.op = "initial" -> SetInitial(s, IF ev.d.k = "none" THEN DefaultInitial ELSE ev.d)
           [] ev.op = "observed" -> SetObserved(s, ev.d)
           [] ev.op = "predicted" -> IF ev.w.k = "none" THEN SetPredicted(s, ev.d)
                                     ELSE IF WOK(ev.w, N(cs))
                                          THEN SetPredictedW(s, ev.d, Weights(ev.w, FALSE, N(cs)))
                                          ELSE s
           [] ev.op = "fit" -> Fit(s, DefaultBw)
           [] ev.op \in Asks -> Ask(s)
           [] OTHER -> s

ExpectOK(cs, s, ev) ==
    CASE ev.op = "new" -> DomOK(cs) /\ WOK(ev.w, N(cs))
      [] ev.op = "weights" -> WOK(ev.w, N(cs))
      [] ev.op = "predicted" -> ev.w.k = "none" \/ WOK(ev.w, N(cs))
      [] OTHER -> TRUE

(* a returned parameter vector is a sample at which the density is largest *)
IsMaximiser(cs, u, o) ==
    \E i \in 1..N(cs) :
        /\ \A k \in 1..N(cs) : Le(u[k], u[i])
        /\ o.k = "arr" /\ o.shape = <<Cols(cs.X)>> /\ o.v = cs.X[i]
(* the stored ratio matters where the weight is not zero *)
RatioIs(cs, t, o) ==
    LET r == Ratio(cs, t.Up)
    IN o.k = "arr" /\ o.shape = <<N(cs)>> /\ \A i \in 1..N(cs) : t.Up.w[i] = Zero \/ EqR(o.v[i], r[i])
UFin(u) == \A i \in 1..Len(u) : Fin(u[i])

Fails(cs, s, t, ev) ==
    IF ev.op \in {"new", "weights", "initial", "observed", "predicted"} /\ (ev.op = "new" \/ Live(s))
    THEN IF ExpectOK(cs, s, ev) THEN Clause(ev.obs.k = "none", "accepted:" \o ev.op)
         ELSE Clause(IsErr(ev.obs), "rejected:" \o ev.op)
    ELSE IF ~Live(t) THEN {}
    ELSE IF ev.op = "shape"
    THEN Clause(VecIs(ev.obs, <<R(Cols(cs.X)), R(Cols(cs.y)), R(N(cs))>>), "shape")
    ELSE IF ev.op = "domain" THEN Clause(MatIs(ev.obs, Domain(cs)), "domain")
    ELSE IF ev.op = "X" THEN Clause(MatIs(ev.obs, cs.X), "samples-kept")
    ELSE IF ev.op = "y" THEN Clause(MatIs(ev.obs, cs.y), "samples-kept")
    ELSE IF t.Up = None \/ ~ExactAnswer(t.Up) THEN {}
    ELSE LET u == UpVals(cs, t.Up)
         IN CASE ev.op \in {"mud_point", "estimate"} ->
                   IF UFin(u) THEN Clause(IsMaximiser(cs, u, ev.obs), ev.op) ELSE {}
              [] ev.op = "expected_ratio" -> Clause(Scalar(ev.obs, ERatio(cs, t.Up)), "expected_ratio")
              [] ev.op = "fit" -> Clause(ev.obs.k = "none", "fit")
              [] ev.op = "peek" ->
                      Clause(ev.up.k = "absent" \/ VecIs(ev.up, u), "updated-density")
                 \cup Clause(ev.r.k = "absent" \/ RatioIs(cs, t, ev.r), "ratio")
                 \cup Clause(ev.w.k = "absent" \/ VecIs(ev.w, t.W), "weights")
              [] OTHER -> {"unknown-event"}

Undecided(cs, s, t, ev) ==
    /\ Live(t) /\ ev.op \in Asks \ {"fit"}
    /\ t.Up # None
    /\ IF ~ExactAnswer(t.Up) THEN TRUE
       ELSE LET u == UpVals(cs, t.Up)
            IN ~UFin(u) \/ (ev.op = "expected_ratio" /\ ~Decidable(ERatio(cs, t.Up)))
                        \/ (ev.op = "peek" /\ UndecSeq(u))

INSTANCE TraceBase
=============================================================================
