------------------------------- MODULE T_Views -------------------------------
(* One affine Gaussian problem asked through several parts of the library.   *)
(* Case: kind "plain" (A, b, y, m, C, Co), "wme"/"data" (op, d, sd, m, C)   *)
(* or "groups" (qs, m, C: one quantity of interest per record op, d, sd);    *)
(* X: samples, live: indices of samples of positive weight.                  *)
EXTENDS Views, Obs
VARIABLES c, l, st

Pb(cs) ==
    CASE cs.kind = "plain" -> [A |-> cs.A, b |-> Col(cs.b), y |-> Col(cs.y), m |-> Col(cs.m), C |-> cs.C, Co |-> cs.Co]
      [] cs.kind = "wme" -> WmeView(cs.op, cs.d, cs.sd, Col(cs.m), cs.C)
      [] cs.kind = "groups" -> GroupsView(cs.qs, Col(cs.m), cs.C)
      [] cs.kind = "data" -> DataView(cs.op, cs.d, cs.sd, Col(cs.m), cs.C)
(* the answers of the specification are computed once, by the first event *)
Answers(kind, live, X, pb) ==
    IF kind = "data"      \* more data than parameters: the Bayesian view only
    THEN [pb |-> pb, live |-> live, posts |-> Vals(LAMBDA x : LogPost(pb, x), X)]
    ELSE
    [pb |-> pb, live |-> live,
     ups |-> Vals(LAMBDA x : LogUp(pb, x), X), posts |-> Vals(LAMBDA x : LogPost(pb, x), X),
     mud |-> MudPt(pb), map |-> MapPt(pb), orth |-> Orthogonal(pb),
     up |-> UpCov(pb.A, pb.C, pb.Co), post |-> PostCov(pb.A, pb.C, pb.Co)]
InitSt(cs) == [ready |-> FALSE]
StepSt(cs, s, ev) ==
    IF ev.op = "ask"
    THEN CHOOSE r \in {TLCEval(Answers(cs.kind, {cs.live[i] : i \in 1..Len(cs.live)}, cs.X, pb)) : pb \in {Pb(cs)}} : TRUE
    ELSE s

Of(cs, s, which) == IF which = "up" THEN s.ups ELSE s.posts
(* the observed vector is one of the best samples *)
Best(o, X, v, live) == IsArr(o) /\ o.shape = <<Cols(X)>> /\ \E i \in Argmin(v, live) : o.v = X[i]
(* differences from the first listed sample *)
Diffs(v, idx) == TLCEval([k \in 1..Len(idx) |-> Sub(v[idx[k]], v[idx[1]])])
Gaps(X, at, S) == TLCEval([i \in 1..Rows(X) |-> Ip(MSub(Col(X[i]), at), S)])
Sol(s, m) == IF m = "map" THEN s.map ELSE s.mud
LastOf(ch) == ch[Len(ch)]
(* the observable of sample i, times sqrt(N) for weighted mean error maps; signed by the caller *)
Q(cs, s, sign) == TLCEval([k \in 1..(Rows(cs.X) * Rows(s.pb.A)) |->
    LET i == ((k - 1) \div Rows(s.pb.A)) + 1   j == ((k - 1) % Rows(s.pb.A)) + 1
        v == Add(VDot(s.pb.A[j], cs.X[i]), s.pb.b[j][1])
    IN Mul(sign, v)])

Expect(cs, s, ev) ==
    CASE ev.op = "sample" -> Of(cs, s, ev.which)
      [] ev.op = "logs" -> Diffs(Of(cs, s, ev.which), ev.idx)
      [] ev.op = "solve" -> Flat(Sol(s, ev.method))
      [] ev.op = "gap" -> IF ev.which = "up" THEN Gaps(cs.X, s.mud, s.up)
                          ELSE Gaps(cs.X, s.map, s.post)
      [] ev.op = "cov" -> IF ev.which = "up" THEN Flat(s.up)
                          ELSE Flat(s.post)
      [] ev.op = "values" -> Of(cs, s, ev.which)
      [] ev.op = "epoch" -> Flat(LastOf(Epoch(s.pb, ev.order, s.pb.m, "mud")))
      [] ev.op = "pass" -> Flat(s.mud)
      [] ev.op = "qoi" -> Q(cs, s, ev.sign)
      [] ev.op = "push" -> Flat(s.pb.y)
Fails(cs, s, t, ev) ==
    IF ev.op = "ask" THEN {}
    ELSE LET e == Expect(cs, s, ev)
    IN CASE ev.op = "sample" -> Clause(UndecSeq(e) \/ Best(ev.obs, cs.X, e, IF ev.which = "up" THEN s.live ELSE 1..Rows(cs.X)), "sample:" \o ev.by)
         [] ev.op = "pass" -> Clause(~s.orth \/ ValsAre(ev.obs, e), "one-pass")
         [] OTHER -> Clause(ValsAre(ev.obs, e), ev.op \o ":" \o ev.by)
Undecided(cs, s, t, ev) == ev.op # "ask" /\ UndecSeq(Expect(cs, s, ev))
INSTANCE TraceBase
=============================================================================
