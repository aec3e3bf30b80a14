-------------------------------- MODULE T_Plot --------------------------------
(* Recorded plots: what was drawn, on which axes, against the exact content. *)
EXTENDS Plot, Obs
VARIABLES c, l, st

InitSt(cs) == [ids |-> cs.ids]
StepSt(cs, s, ev) == [ids |-> ev.ids]

(* the recorded canvas is a Draw: nothing else changed, nothing lost *)
SeqSet(q) == {q[i] : i \in 1..Len(q)}
CanvasOK(a, b, target, some) ==
    /\ Len(b) = Len(a) + (IF target = 0 THEN 1 ELSE 0)
    /\ LET cva == [i \in 1..Len(a) |-> SeqSet(a[i])]  cvb == [i \in 1..Len(b) |-> SeqSet(b[i])]
           t == IF target = 0 THEN Len(b) ELSE target
           new == IF target = 0 THEN cvb[t] ELSE cvb[t] \ cva[t]
       IN /\ new # {} \/ ~some
          /\ cvb = Draw(cva, target, new)

Pts2(M, i, j) == [k \in 1..Rows(M) |-> <<M[k][i], M[k][j]>>]
ColOf(M, j) == [k \in 1..Rows(M) |-> M[k][j]]
Sel(q, idx) == [k \in 1..Len(idx) |-> q[idx[k]]]
PtsAre(o, e) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : EqRSeq(o[k], e[k])

(* --- panels of densities and vertical lines --- *)
Base(q) == IF q.fit THEN FitBox(q.X, q.B, q.pad) ELSE q.B
PartBad(q, ev) ==
    IF q.kind = "curve"
    THEN By1(LAMBDA B : Clause(EqRSeq(q.x, CurveX(B, q.aff, q.idx)), "curve-range:" \o q.name) \cup
                        Clause(By1(LAMBDA e : EqRSeq(IF q.unit THEN q.y ELSE Unit(q.y, StepW(B, q.aff, q.idx)), e),
                                   CurveY(q.d, B, q.aff, q.idx)), "curve:" \o q.name), Base(q))
    ELSE Clause(\A k \in 1..Len(q.x) : q.x[k] = q.at, "line-at:" \o q.name) \cup
         Clause(q.y = (IF q.top = <<>> THEN ev.ylim ELSE <<ev.ylim[1], q.top[1]>>), "line-height:" \o q.name)
PanelBad(ev) == Clause(SeqSet(ev.want) = SeqSet(ev.drawn) /\ Len(ev.want) = Len(ev.drawn), "drawn") \cup
                UNION {PartBad(ev.parts[k], ev) : k \in 1..Len(ev.parts)}

(* --- linear maps --- *)
Refp(ev) == IF ev.ref # <<>> THEN ev.ref ELSE ColPt(Ls(ev.pb.A, ev.pb.b, ev.pb.y))
ContoursBad(ev) ==
    By1(LAMBDA r : Clause(Len(ev.segs) = Len(ev.subset), "contours:number") \cup
                   Clause((Len(ev.segs) = Len(ev.subset) /\ \A k \in 1..2 : ~IsOvf(r[k]) /\ r[k][2] <= 100) =>
                          \A k \in 1..Len(ev.segs) : IsContour(ev.segs[k], ev.pb.A[ev.subset[k]], r, ev.w), "contours:lines"), Refp(ev)) \cup
    (IF ev.annotate
     THEN Clause(/\ ev.nums = [k \in 1..Len(ev.subset) |-> ev.subset[k]]
                 /\ \A k \in 1..Len(ev.nums) : ev.at[k] \in (IF ev.loc # <<>> THEN {ev.loc} ELSE SeqSet(ev.segs[k])), "contours:labels")
     ELSE Clause(ev.nums = <<>>, "contours:labels"))
SolPt(pb, point) ==
    CASE point = "initial" -> ColPt(pb.m)
      [] point = "mud" -> ColPt(Mud(pb.A, pb.b, pb.y, pb.m, pb.C))
      [] point = "map" -> ColPt(Map(pb.A, pb.b, pb.y, pb.m, pb.C, pb.Co))
      [] point = "ls" -> ColPt(Ls(pb.A, pb.b, pb.y))
SolBad(ev) ==
    By1(LAMBDA p : Clause(PtsAre(ev.pts, <<p>>), "sol:point") \cup
          Clause(IF ev.line /\ ev.point # "initial"
                 THEN Len(ev.segs) = 1 /\ (PtsAre(ev.segs[1], <<ColPt(ev.pb.m), p>>) \/ PtsAre(ev.segs[1], <<p, ColPt(ev.pb.m)>>))
                 ELSE ev.segs = <<>>, "sol:line") \cup
          Clause(IF ev.label THEN ev.texts = <<"the label">> /\ Len(ev.at) = 1 /\
                       (IF ev.loc # <<>> THEN ev.at[1] = ev.loc ELSE EqRSeq(ev.at[1], <<Sub(p[1], <<1, 50>>), Add(p[2], <<1, 50>>)>>))
                 ELSE ev.texts = <<>>, "sol:label"), SolPt(ev.pb, ev.point))

(* --- chains: every consecutive pair is joined, every row visited has its contour, nothing else --- *)
RECURSIVE RunR(_, _, _, _)
RunR(pb, ord, solves, ch) == IF solves = <<>> THEN ch
    ELSE RunR(pb, ord, Tail(solves), Solve(pb, ord, Head(solves).n, Head(solves).method, ch))
Joined(segs, ab) == \E k \in 1..Len(segs) : SameSeg(segs[k], ab[1], ab[2])
ChainsBad(ev, chs, wanted) ==
    LET ps == UNION {Pairs(chs[e]) : e \in 1..Len(chs)}
        pts == UNION {{chs[e][1], chs[e][Len(chs[e])]} : e \in 1..Len(chs)} \cup {ev.ref}
        cont == {k \in 1..Len(ev.segs) : \E i \in SeqSet(wanted) : IsContour(ev.segs[k], ev.pb.A[i], ev.ref, ev.w)}
    IN Clause(\A p \in ps : Joined(ev.segs, p), "chain:joined") \cup
       Clause(\A i \in SeqSet(wanted) : \E k \in cont : IsContour(ev.segs[k], ev.pb.A[i], ev.ref, ev.w), "chain:contours") \cup
       Clause(\A k \in 1..Len(ev.segs) : k \in cont \/ (\E p \in ps : SameSeg(ev.segs[k], p[1], p[2])), "chain:nothing-else") \cup
       Clause(SeqSet(ev.pts) = pts, "chain:marked")
ChainBad(ev) ==
    By1(LAMBDA chs : IF \E e \in 1..Len(chs) : \E k \in 1..Len(chs[e]) : UndecSeq(Flat(chs[e][k])) THEN {} ELSE ChainsBad(ev, TLCEval([e \in 1..Len(chs) |-> ChainPts(chs[e])]), ev.order),
        TLCEval(RunR(ev.pb, ev.order, ev.solves, <<>>)))
PlotChainBad(ev) ==
    Clause(\A p \in Pairs(ev.chain) : Joined(ev.segs, p), "plotChain:joined") \cup
    Clause(\A k \in 1..Len(ev.segs) : \E p \in Pairs(ev.chain) : SameSeg(ev.segs[k], p[1], p[2]), "plotChain:nothing-else") \cup
    Clause(SeqSet(ev.pts) = {ev.chain[1], ev.ref}, "plotChain:marked") \cup
    Clause(ev.lims = <<<<Zero, One>>, <<Zero, One>>>>, "plotChain:limits")

(* --- functionals over a mesh: the recorded triples (x, y, value) --- *)
FunVal(ev, p) ==
    LET x == << <<p[1]>>, <<p[2]>> >>  pb == ev.pb
        d == DataTerm(pb.A, pb.b, pb.y, pb.Co, x)
        g == Mul(ev.alpha, RegTerm(pb.m, pb.C, x))
        q == Mul(ev.alpha, PrTerm(pb.A, pb.m, pb.C, x))
    IN CASE ev.terms = "data" -> d [] ev.terms = "reg" -> g [] ev.terms = "dc_term" -> q [] ev.terms = "reg_m" -> Sub(g, q)
         [] ev.terms = "bayes" -> Add(d, g) [] ev.terms = "dc" -> Sub(Add(d, g), q)
FunBad(ev) == Clause({<<ev.tri[k][1], ev.tri[k][2]>> : k \in 1..Len(ev.tri)} = SeqSet(ev.mesh) /\ Len(ev.tri) = Len(ev.mesh), "fun:mesh") \cup
              Clause(\A k \in 1..Len(ev.tri) : EqR(ev.tri[k][3], FunVal(ev, ev.tri[k])), "fun:" \o ev.terms)

(* --- scatter of selected columns and rows; ev.tri: contour triples --- *)
ScatterBad(ev) ==
    LET rows == IF ev.rows = <<>> THEN [k \in 1..Rows(ev.M) |-> k] ELSE ev.rows
        p == TLCEval(Sel(Pts2(ev.M, ev.i, ev.j), rows))
    IN (IF ev.scatter THEN Clause(PtsAre(ev.pts, p), "scatter:points") ELSE {}) \cup
       (IF ev.colour # <<>> THEN Clause(EqRSeq(ev.array, ev.colour), "scatter:colours") ELSE {}) \cup
       (IF ev.contour THEN Clause(PtsAre(ev.tri, TLCEval([k \in 1..Len(p) |-> <<p[k][1], p[k][2], ev.z[k]>>])), "contour:values")
        ELSE Clause(ev.tri = <<>>, "contour:absent"))

(* --- time series: sensor-major rows; the selected samples at the selected times --- *)
Series(row, ns, nt, s, ts) == [k \in 1..Len(ts) |-> row[(s - 1) * nt + ts[k]]]
TsBad(ev) ==
    LET x == Sel(ev.times, ev.ts)
        want == {Series(ev.D[ev.samples[i]], ev.ns, ev.nt, ev.s, ev.ts) : i \in 1..Len(ev.samples)}
        num == IF ev.max < Len(ev.samples) THEN ev.max ELSE Len(ev.samples)
    IN Clause(ev.pts = [k \in 1..Len(x) |-> <<x[k], Series(ev.meas, ev.ns, ev.nt, ev.s, ev.ts)[k]>>], "ts:measurements") \cup
       Clause(Len(ev.lines) = num, "ts:number") \cup
       Clause(\A i \in 1..Len(ev.lines) : ev.lines[i].x = x /\ ev.lines[i].y \in want, "ts:series") \cup
       Clause(num = Len(ev.samples) => want = {ev.lines[i].y : i \in 1..Len(ev.lines)}, "ts:all-shown")
VecsBad(ev) == Clause(Len(ev.sets) = Len(ev.vecs) /\ \A i \in 1..Len(ev.vecs) :
                  PtsAre(ev.sets[i], [k \in 1..Len(ev.vecs[i]) |-> <<R(k - 1), ev.vecs[i][k]>>]), "vecs")

Content(ev) ==
    CASE ev.op = "panel" -> PanelBad(ev)
      [] ev.op = "contours" -> ContoursBad(ev)
      [] ev.op = "sol" -> SolBad(ev)
      [] ev.op = "chain" -> ChainBad(ev)
      [] ev.op = "plotChain" -> PlotChainBad(ev)
      [] ev.op = "chain_error" ->
           Clause(EqRSeq(ev.sq, TLCEval(Errors2(RunR(ev.pb, ev.order, ev.solves, <<>>), Col(ev.ref)))), "chain_error:values") \cup
           Clause(ev.scale = "log", "chain_error:scale")
      [] ev.op = "fun" -> FunBad(ev)
      [] ev.op = "scatter" -> ScatterBad(ev)
      [] ev.op = "ts" -> TsBad(ev)
      [] ev.op = "vecs" -> VecsBad(ev)
(* drawing options: every artist has the options asked for it *)
StyleBad(ev) == IF "sty" \in DOMAIN ev
                THEN UNION {Clause(ev.sty[k].got = ev.sty[k].want, "style:" \o ev.sty[k].n) : k \in 1..Len(ev.sty)} ELSE {}
Fails(cs, s, t, ev) ==
    IF ev.op = "refused" THEN Clause(IsErr(ev.res) /\ s.ids = t.ids, "refused")
    ELSE IF IsErr(ev.res) THEN {"raised:" \o ev.op}
    ELSE Clause(CanvasOK(s.ids, t.ids, ev.target, ev.op # "panel" \/ Len(ev.want) > 0), "canvas:" \o ev.op) \cup Content(ev) \cup StyleBad(ev)
Undecided(cs, s, t, ev) == FALSE
INSTANCE TraceBase
=============================================================================
