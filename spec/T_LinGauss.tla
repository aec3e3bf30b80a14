----------------------------- MODULE T_LinGauss -----------------------------
(* Recorded calls on affine Gaussian problems against the closed forms.      *)
(* Case: A, and b, y, m (vectors), C, Co (matrices), alpha; an empty         *)
(* sequence means the argument was left out.                                 *)
EXTENDS LinGauss, Obs
VARIABLES c, l, st

Ns(cs) == Rows(cs.A)
Di(cs) == Cols(cs.A)
VecOr0(v, n) == IF v = <<>> THEN ColZero(n) ELSE Col(v)
MatOrI(M, n) == IF M = <<>> THEN Eye(n) ELSE M
OkDims(cs) == cs.y = <<>> \/ Len(cs.y) = Ns(cs)
InitSt(cs) ==
    IF ~OkDims(cs) THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, A |-> cs.A, b |-> VecOr0(cs.b, Ns(cs)), y |-> VecOr0(cs.y, Ns(cs)),
          m |-> VecOr0(cs.m, Di(cs)), C |-> MatOrI(cs.C, Di(cs)), Co |-> MatOrI(cs.Co, Ns(cs)),
          al |-> IF cs.alpha = <<>> THEN One ELSE cs.alpha, full |-> FullRow(cs.A), k |-> 0,
          last |-> [mud |-> 0, map |-> 0, ls |-> 0]]
(* the problem itself never changes; it keeps the last answer of each method *)
StepSt(cs, s, ev) ==
    IF ~s.ok THEN s
    ELSE IF ev.op = "solve" /\ ev.method # "mud_alt" THEN [s EXCEPT !.k = @ + 1, !.last[ev.method] = ev.od]
    ELSE [s EXCEPT !.k = @ + 1]

(* the problem restricted to its first od rows *)
Cut(s, od) == [s EXCEPT !.A = SubRows(s.A, od), !.b = SubRows(s.b, od), !.y = SubRows(s.y, od),
                        !.Co = SubMat(s.Co, od, od), !.full = FullRow(SubRows(s.A, od))]
AC(s) == MScale(s.al, s.C)
Sol(s, method) ==
    CASE method = "mud" -> Mud(s.A, s.b, s.y, s.m, s.C)
      [] method = "mud_alt" -> MudAlt(s.A, s.b, s.y, s.m, AC(s), s.Co)
      [] method = "map" -> Map(s.A, s.b, s.y, s.m, AC(s), s.Co)
      [] method = "ls" -> Ls(s.A, s.b, s.y)

(* columns for a set of parameters: ev.X is a matrix, one parameter per row *)
PtCol(X, i) == Col(X[i])
Terms(s, X, which) ==
    TLCEval([i \in 1..Rows(X) |->
      LET x == PtCol(X, i)
          d == DataTerm(s.A, s.b, s.y, s.Co, x)
          g == Mul(s.al, RegTerm(s.m, s.C, x))
          q == Mul(s.al, PrTerm(s.A, s.m, s.C, x))
      IN CASE which = "data" -> d
           [] which = "reg" -> g
           [] which = "dc_term" -> q
           [] which = "reg_m" -> Sub(g, q)
           [] which = "bayes" -> Add(d, g)
           [] which = "dc" -> Sub(Add(d, g), q)])
(* free-standing norms: ev carries its own covariances as matrices *)
NormVals(s, ev) ==
    TLCEval([i \in 1..Rows(ev.X) |->
      LET x == PtCol(ev.X, i)
      IN CASE ev.op = "norm_input" -> Ip(MSub(x, s.m), ev.C)
           [] ev.op = "norm_data" -> Ip(MSub(MAdd(MMul(s.A, x), s.b), Col(ev.om)), ev.Co)
           [] ev.op = "norm_predicted" -> PrTerm(s.A, s.m, ev.C, x)
           [] ev.op = "inner_product" -> Ip(x, ev.C)
           [] ev.op = "full_functional" ->
                Sub(Add(Ip(MSub(x, s.m), ev.C), Ip(MSub(MAdd(MMul(s.A, x), s.b), Col(ev.om)), ev.Co)),
                    PrTerm(s.A, s.m, ev.C, x))])

Expect(s, ev) ==   \* flattened expected values
    CASE ev.op = "solve" -> Flat(Sol(Cut(s, ev.od), ev.method))
      [] ev.op = "sol" -> Flat(Sol(s, ev.method))
      [] ev.op = "kept" -> Flat(Sol(Cut(s, s.last[ev.method]), ev.method))
      [] ev.op = "kept_cov" -> LET u == Cut(s, s.last["map"]) IN Flat(PostCov(u.A, AC(u), u.Co))
      [] ev.op = "up_cov" -> Flat(UpCov(s.A, AC(s), s.Co))
      [] ev.op = "cov_p" -> Flat(PostCov(s.A, AC(s), s.Co))
      [] ev.op = "updated_cov" -> Flat(UpCov(ev.X, ev.C, ev.Co))
      [] ev.op = "terms" -> Terms(s, ev.X, ev.which)
      [] ev.op = "attr_m" -> Flat(s.m)
      [] ev.op = "attr_C" -> Flat(s.C)
      [] OTHER -> NormVals(s, ev)
Shape(s, ev) ==
    CASE ev.op \in {"solve", "kept"} -> <<Rows(s.m), 1>>
      [] ev.op = "sol" -> IF ev.flat THEN <<Rows(s.m)>> ELSE <<Rows(s.m), 1>>
      [] ev.op \in {"up_cov", "cov_p", "attr_C", "kept_cov"} -> <<Rows(s.m), Rows(s.m)>>
      [] ev.op = "updated_cov" -> <<Cols(ev.X), Cols(ev.X)>>
      [] ev.op = "attr_m" -> <<Rows(s.m), 1>>
      [] OTHER -> <<Rows(ev.X)>>
Name(ev) == IF ev.op \in {"solve", "sol", "kept"} THEN ev.op \o ":" \o ev.method
            ELSE IF ev.op = "terms" THEN "terms:" \o ev.which ELSE ev.op

Fails(cs, s, t, ev) ==
    IF ev.op = "new"
    THEN IF s.ok THEN Clause(ev.obs.k = "none", "accepted") ELSE Clause(IsErr(ev.obs), "rejected")
    ELSE IF ~s.ok THEN {}
    ELSE IF ev.op = "dims"
         THEN Clause(VecIs(ev.obs, <<R(Cols(s.A)), One, R(Rows(s.A))>>), "dims")
    ELSE Clause(ArrIs(ev.obs, Shape(s, ev), Expect(s, ev)), Name(ev))

Undecided(cs, s, t, ev) ==
    s.ok /\ ev.op \notin {"new", "dims"} /\ UndecSeq(Expect(s, ev))

INSTANCE TraceBase
=============================================================================
