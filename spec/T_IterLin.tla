------------------------------ MODULE T_IterLin ------------------------------
(* Recorded iterative solves against the chain of exact one-row solutions.   *)
EXTENDS IterLin, Obs
VARIABLES c, l, st

Ns(cs) == Rows(cs.A)
Di(cs) == Cols(cs.A)
VecOr0(v, n) == IF v = <<>> THEN ColZero(n) ELSE Col(v)
MatOrI(M, n) == IF M = <<>> THEN Eye(n) ELSE M
Pb(cs) == [A |-> cs.A, b |-> VecOr0(cs.b, Ns(cs)), y |-> VecOr0(cs.y, Ns(cs)), m |-> VecOr0(cs.m, Di(cs)),
           C |-> MatOrI(cs.C, Di(cs)), Co |-> MatOrI(cs.Co, Ns(cs))]
Ord(cs) == IF cs.order = <<>> THEN [i \in 1..Ns(cs) |-> i] ELSE cs.order
InitSt(cs) == [pb |-> Pb(cs), ord |-> Ord(cs), ch |-> <<>>]
StepSt(cs, s, ev) == IF ev.op = "solve" THEN [s EXCEPT !.ch = Solve(s.pb, s.ord, ev.n, ev.method, s.ch)] ELSE s

Ch0(s, ev) == Solve(s.pb, s.ord, ev.n, ev.method, <<>>)   \* a fresh run, for the functions
PtIs(o, di, x) == ArrIs(o, <<di, 1>>, Flat(x))
SeqOK(obs, pts, F(_, _)) == Len(obs) = Len(pts) /\ \A k \in 1..Len(pts) : F(obs[k], pts[k])
ColOK(o, x) == PtIs(o, Rows(x), x)
ValOK(o, x) == ValsAre(o, Flat(x))

Fails(cs, s, t, ev) ==
    CASE ev.op = "new" -> Clause(ev.obs.k = "none", "accepted")
      [] ev.op = "solve" -> Clause(ColOK(ev.obs, Last(t.ch, t.pb.m)), "solve:" \o ev.method)
      [] ev.op = "chains" -> Clause(/\ Len(ev.chains) = Len(t.ch)
                                    /\ \A e \in 1..Len(t.ch) : SeqOK(ev.chains[e], t.ch[e], ColOK), "chains")
      [] ev.op = "epochs" ->     \* recorded sub-problems: start, row and right-hand side of every step
           Clause(/\ Len(ev.epochs) = Len(t.ch)
                  /\ \A e \in 1..Len(t.ch) :
                        /\ Len(ev.epochs[e]) = Len(t.ord)
                        /\ \A k \in 1..Len(t.ord) :
                              LET q == ev.epochs[e][k]  i == t.ord[k]
                              IN /\ ValOK(q.mean, t.ch[e][k]) /\ ValsAre(q.A, t.pb.A[i])
                                 /\ ValOK(q.b, RowM(t.pb.b, i)) /\ ValOK(q.y, RowM(t.pb.y, i)), "epochs")
      [] ev.op = "errors" -> Clause(ValsAre(ev.obs, Errors2(t.ch, Col(ev.ref))), "errors")
      [] ev.op = "fsolve" -> Clause(ColOK(ev.obs, Last(Ch0(s, ev), s.pb.m)), "iter_lin_solve")
      [] ev.op = "epoch" -> Clause(SeqOK(ev.pts, Ch0(s, ev)[1], ValOK), "performEpoch")
      [] ev.op = "iterate" -> Clause(SeqOK(ev.pts, ConcatR(Ch0(s, ev), 1), ValOK), "iterate")
      [] ev.op = "mean" -> Clause(ValOK(ev.obs, t.pb.m), "mean-kept")
Undecided(cs, s, t, ev) == ev.op = "solve" /\ UndecSeq(Flat(Last(t.ch, t.pb.m)))
INSTANCE TraceBase
=============================================================================
