-------------------------------- MODULE Spatio --------------------------------
(* The spatio-temporal problem as a state machine: parts that are assigned   *)
(* in any order, each accepted only when consistent with the parts present.  *)
(* An array is [k |-> "arr", shape |-> sizes, v |-> flattened rationals].    *)
EXTENDS Mat, FiniteSets

NN == [k |-> "none"]
Ar(sh, v) == [k |-> "arr", shape |-> sh, v |-> v]
Str(x) == [k |-> "str", s |-> x]
IsSet(x) == x # NN
Sz(a) == Len(a.v)
NR(a) == a.shape[1]
NC(a) == a.shape[2]
At(a, i, j) == a.v[(i - 1) * a.shape[2] + j]
RowOfA(a, i) == SubSeq(a.v, (i - 1) * a.shape[2] + 1, i * a.shape[2])

Empty == [domain |-> NN, lam |-> NN, lam_ref |-> NN, data |-> NN, sensors |-> NN, times |-> NN,
          measurements |-> NN, true_vals |-> NN, sample_dist |-> NN, std_dev |-> NN]
Fields == {"domain", "lam", "lam_ref", "data", "sensors", "times", "measurements", "true_vals",
           "sample_dist", "std_dev"}

AsCols(a) == IF Len(a.shape) = 1 THEN Ar(<<a.shape[1], 1>>, a.v) ELSE a
Flat2(a) == IF Len(a.shape) = 1 THEN Ar(<<a.shape[1], 1>>, a.v)
            ELSE IF Len(a.shape) = 3 THEN Ar(<<a.shape[1], a.shape[2] * a.shape[3]>>, a.v)
            ELSE a
Arange(n) == Ar(<<n>>, [i \in 1..n |-> R(i - 1)])
BoundsA(l) == LET col(j) == [i \in 1..NR(l) |-> At(l, i, j)]
              IN Ar(<<NC(l), 2>>, TLCEval([q \in 1..(2 * NC(l)) |->
                     LET j == (q + 1) \div 2 IN IF q % 2 = 1 THEN MinSeq(col(j)) ELSE MaxSeq(col(j))]))
Inside(x, lo, hi) == Le(lo, x) /\ Le(x, hi)

NSensors(s) == NR(s.sensors)
NTimes(s) == NR(s.times)
Count(s) == NSensors(s) * NTimes(s)

(* ------------------------------ assignments ------------------------------ *)
OkDomain(s, a) ==
    /\ Sz(a) % 2 = 0
    /\ IsSet(s.lam) => /\ Sz(a) \div 2 = NC(s.lam)
                       /\ \A j \in 1..NC(s.lam) : \A i \in 1..NR(s.lam) :
                             Inside(At(s.lam, i, j), a.v[2 * j - 1], a.v[2 * j])
OkLam(s, a) == IsSet(s.domain) => NC(AsCols(a)) = NR(s.domain)
OkRef(s, a) == /\ IsSet(s.domain)
               /\ Sz(a) = NR(s.domain)
               /\ \A j \in 1..Sz(a) : Inside(a.v[j], At(s.domain, j, 1), At(s.domain, j, 2))
OkData(s, a) ==
    LET n == NC(Flat2(a))
    IN CASE IsSet(s.sensors) /\ IsSet(s.times) -> n = Count(s)
         [] IsSet(s.sensors) /\ ~IsSet(s.times) -> n = NSensors(s)
         [] ~IsSet(s.sensors) /\ IsSet(s.times) -> n = NTimes(s)
         [] OTHER -> TRUE
OkObs(s, a) == IsSet(s.sensors) /\ IsSet(s.times) /\ Sz(a) = Count(s)
Ok(s, f, a) ==
    CASE f = "domain" -> OkDomain(s, a)
      [] f = "lam" -> OkLam(s, a)
      [] f = "lam_ref" -> OkRef(s, a)
      [] f = "data" -> OkData(s, a)
      [] f \in {"measurements", "true_vals"} -> OkObs(s, a)
      [] f = "sample_dist" -> a \in {Str("u"), Str("n")}
      [] OTHER -> TRUE

EffLam(s, a) ==
    LET l == AsCols(a)
    IN [s EXCEPT !.lam = l,
                 !.domain = IF IsSet(@) THEN @ ELSE BoundsA(l),
                 !.sample_dist = IF IsSet(@) THEN @ ELSE Str("u")]
EffData(s, a) ==
    LET d == Flat2(a)
    IN [s EXCEPT !.data = d,
                 !.sensors = IF IsSet(@) THEN @ ELSE Arange(1),
                 !.times = IF IsSet(@) THEN @
                           ELSE IF IsSet(s.sensors) THEN Arange(1) ELSE Arange(NC(d))]
ColA(a) == Ar(<<Sz(a), 1>>, a.v)
Eff(s, f, a) ==
    CASE f = "domain" -> [s EXCEPT !.domain = Ar(<<Sz(a) \div 2, 2>>, a.v)]
      [] f = "lam" -> EffLam(s, a)
      [] f = "lam_ref" -> [s EXCEPT !.lam_ref = Ar(<<Sz(a)>>, a.v)]
      [] f = "data" -> EffData(s, a)
      [] f = "measurements" -> [s EXCEPT !.measurements = ColA(a)]
      [] f = "true_vals" -> [s EXCEPT !.true_vals = ColA(a)]
      [] f = "sample_dist" -> [s EXCEPT !.sample_dist = a]
      [] f = "sensors" -> [s EXCEPT !.sensors = a]
      [] f = "times" -> [s EXCEPT !.times = a]
      [] f = "std_dev" -> [s EXCEPT !.std_dev = a]
Assign(s, f, a) == IF Ok(s, f, a) THEN Eff(s, f, a) ELSE s

(* -------------------------------- loading -------------------------------- *)
FieldOrder == <<"sample_dist", "domain", "sensors", "times", "std_dev", "lam", "data", "lam_ref",
                "true_vals", "measurements">>
(* ds: sequence of [n |-> name, v |-> value]; kw: sequence of [f, k, n | v]  *)
Lookup(ds, n) == LET I == {i \in 1..Len(ds) : ds[i].n = n}
                 IN IF I = {} THEN NN ELSE ds[CHOOSE i \in I : TRUE].v
Resolve(ds, kw, f) ==
    LET I == {i \in 1..Len(kw) : kw[i].f = f}
    IN IF I = {} THEN Lookup(ds, f)
       ELSE LET e == kw[CHOOSE i \in I : TRUE]
            IN IF e.k = "name" THEN Lookup(ds, e.n) ELSE e.v
RECURSIVE LoadR(_, _, _, _)
LoadR(s, ds, kw, k) ==      \* [ok, s]
    IF k > Len(FieldOrder) THEN [ok |-> TRUE, s |-> s]
    ELSE LET f == FieldOrder[k]  v == Resolve(ds, kw, f)
         IN IF v = NN THEN LoadR(s, ds, kw, k + 1)
            ELSE IF Ok(s, f, v) THEN LoadR(TLCEval(Eff(s, f, v)), ds, kw, k + 1)
            ELSE [ok |-> FALSE, s |-> s]
Load(s, ds, kw) == LoadR(s, ds, kw, 1)
(* a part is missing when it was never set *)
Required(meas, true) == {"domain", "lam", "data"} \cup (IF meas THEN {"measurements"} ELSE {})
                        \cup (IF true THEN {"lam_ref", "true_vals"} ELSE {})
Missing(s, meas, true) == {f \in Required(meas, true) : ~IsSet(s[f])}

(* ------------------------------- selection ------------------------------- *)
(* a mask is [k |-> "none"] or [k |-> "idx", i |-> indices from 1]           *)
Idx(mask, n) == IF mask.k = "none" THEN [i \in 1..n |-> i] ELSE mask.i
CanSelect(s) == /\ IsSet(s.data) /\ IsSet(s.lam) /\ IsSet(s.sensors) /\ IsSet(s.times)
                /\ NR(s.data) = NR(s.lam) /\ NC(s.data) = Count(s)
                /\ IsSet(s.measurements) => Sz(s.measurements) = Count(s)
(* sensor-major column of sensor e at time t *)
ColOf(s, e, t) == (e - 1) * NTimes(s) + t
SelCols(s, em, tm) ==
    LET E == Idx(em, NSensors(s))  T == Idx(tm, NTimes(s))
    IN TLCEval([q \in 1..(Len(E) * Len(T)) |-> ColOf(s, E[((q - 1) \div Len(T)) + 1], T[((q - 1) % Len(T)) + 1])])
SelRows(a, I) == LET w == Sz(a) \div NR(a)
                 IN TLCEval([q \in 1..(Len(I) * w) |-> a.v[(I[((q - 1) \div w) + 1] - 1) * w + ((q - 1) % w) + 1]])
SubLam(s, sm) == LET I == Idx(sm, NR(s.lam)) IN Ar(<<Len(I), NC(s.lam)>>, SelRows(s.lam, I))
SubData(s, sm, em, tm) ==
    LET I == Idx(sm, NR(s.lam))   K == SelCols(s, em, tm)
    IN Ar(<<Len(I), Len(K)>>,
          TLCEval([q \in 1..(Len(I) * Len(K)) |-> At(s.data, I[((q - 1) \div Len(K)) + 1], K[((q - 1) % Len(K)) + 1])]))
SubVec(s, a, em, tm) == LET K == SelCols(s, em, tm) IN Ar(<<Len(K)>>, TLCEval([q \in 1..Len(K) |-> a.v[K[q]]]))
SubTimes(s, tm) == IF tm.k = "none" THEN s.times ELSE Ar(<<Len(tm.i), 1>>, SelRows(s.times, tm.i))
SubSensors(s, em) == IF em.k = "none" THEN s.sensors
                     ELSE Ar(<<Len(em.i)>> \o Tail(s.sensors.shape), SelRows(s.sensors, em.i))
Dist2(d, i, m) == SumSeq([q \in 1..NC(d) |-> LET z == Sub(At(d, i, q), m.v[q]) IN Mul(z, z)])
(* the selected samples whose selected data are nearest to the given values *)
Nearest(d, m) == LET D == TLCEval([i \in 1..NR(d) |-> Dist2(d, i, m)])
                 IN {i \in 1..NR(d) : \A k \in 1..NR(d) : Le(D[i], D[k])}

(* --------------------------- data-constructed maps ------------------------ *)
Norm2V(w) == RSqrt(SumSeq([i \in 1..Len(w) |-> Mul(w[i], w[i])]))
WScale(w, q) == IF w = <<>> THEN One ELSE Div(w[q], Norm2V(w))
(* scaled residuals of the selected samples (matrix) *)
Residuals(s, sm, em, tm, w) ==
    LET d == SubData(s, sm, em, tm)  m == SubVec(s, s.measurements, em, tm)
        sc == TLCEval([q \in 1..NC(d) |-> WScale(w, q)])
    IN TLCEval([i \in 1..NR(d) |-> [q \in 1..NC(d) |->
          Mul(sc[q], Div(Sub(m.v[q], At(d, i, q)), s.std_dev.v[1]))]])
(* weighted mean error, times the square root of the number of selected data *)
WmeRaw(Q) == TLCEval([i \in 1..Rows(Q) |-> SumSeq(Q[i])])
(* two columns: the standardised residuals have the directions (1, r) and (1, -r) over sqrt 2, *)
(* r the sign of their covariance; components times sqrt 2, each up to one sign *)
ColMean(Q, q) == Div(SumSeq([i \in 1..Rows(Q) |-> Q[i][q]]), R(Rows(Q)))
Cov12(Q) == LET a == ColMean(Q, 1)  b == ColMean(Q, 2)
            IN SumSeq([i \in 1..Rows(Q) |-> Mul(Sub(Q[i][1], a), Sub(Q[i][2], b))])
Varies(Q, q) == \E i \in 1..Rows(Q) : Q[i][q] # Q[1][q]
Princ2(Q, k) ==
    LET cv == Cov12(Q)
        sg == IF (cv[1] > 0) = (k = 1) THEN 1 ELSE -1
    IN TLCEval([i \in 1..Rows(Q) |-> IF sg = 1 THEN Add(Q[i][1], Q[i][2]) ELSE Sub(Q[i][1], Q[i][2])])
=============================================================================
