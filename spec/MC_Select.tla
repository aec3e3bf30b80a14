------------------------------ MODULE MC_Select ------------------------------
(* Laws of selection, nearest samples, residual maps and loading, over every *)
(* mask of small problems whose entries name their position.                 *)
EXTENDS Spatio
CONSTANTS MaxN, MaxE, MaxT, MaxSel
VARIABLES ph, n, e, t, sm, em, tm, has    \* sizes, masks, parts present in a data set

Masks(k) == {NN} \cup {[k |-> "idx", i |-> q] : q \in UNION {[1..m -> 1..k] : m \in 1..MaxSel}}
Code(i, a, b) == R(100 * i + 10 * a + b)
Grid(N, E, T) ==
    [Empty EXCEPT
       !.domain = Ar(<<1, 2>>, <<R(0), R(9)>>),
       !.lam = Ar(<<N, 1>>, [i \in 1..N |-> R(i)]),
       !.sample_dist = Str("u"),
       !.sensors = Ar(<<E>>, [i \in 1..E |-> R(i)]),
       !.times = Ar(<<T>>, [i \in 1..T |-> R(i)]),
       !.data = Ar(<<N, E * T>>, [q \in 1..(N * E * T) |->
                    LET z == q - 1 IN Code((z \div (E * T)) + 1, ((z % (E * T)) \div T) + 1, (z % T) + 1)]),
       !.measurements = Ar(<<E * T, 1>>, [q \in 1..(E * T) |-> Code(1, ((q - 1) \div T) + 1, ((q - 1) % T) + 1)]),
       !.std_dev = Ar(<<>>, <<R(2)>>)]
S == Grid(n, e, t)
Parts == {"lam", "data", "measurements", "lam_ref", "true_vals"}
Init == ph = 0 /\ n = 1 /\ e = 1 /\ t = 1 /\ sm = NN /\ em = NN /\ tm = NN /\ has = {}
Next == ph = 0 /\ ph' = 1 /\ (
        \/ \E a \in 1..MaxN, b \in 1..MaxE, d \in 1..MaxT :
              \E x \in Masks(a), y \in Masks(b), z \in Masks(d) :
                 n' = a /\ e' = b /\ t' = d /\ sm' = x /\ em' = y /\ tm' = z /\ UNCHANGED has
        \/ \E P \in SUBSET Parts : has' = P /\ UNCHANGED <<n, e, t, sm, em, tm>>)
Ix(m, k) == Idx(m, k)
D == SubData(S, sm, em, tm)
M == SubVec(S, S.measurements, em, tm)
(* every selected entry is the one at its sample, sensor and time, sensor-major *)
Entries == LET I == Ix(sm, n)  A == Ix(em, e)  B == Ix(tm, t)
           IN /\ D.shape = <<Len(I), Len(A) * Len(B)>>
              /\ \A i \in 1..Len(I), a \in 1..Len(A), b \in 1..Len(B) :
                    /\ At(D, i, (a - 1) * Len(B) + b) = Code(I[i], A[a], B[b])
                    /\ M.v[(a - 1) * Len(B) + b] = Code(1, A[a], B[b])
Whole == SubData(S, NN, NN, NN) = S.data /\ SubVec(S, S.measurements, NN, NN).v = S.measurements.v /\ SubLam(S, NN) = S.lam
(* selecting the sub-problem again with no masks gives the same *)
SubProblem == LET I == Ix(sm, n)
                  P == [S EXCEPT !.lam = SubLam(S, sm), !.data = D,
                                 !.sensors = Ar(<<Len(Ix(em, e))>>, SelRows(S.sensors, Ix(em, e))),
                                 !.times = Ar(<<Len(Ix(tm, t))>>, SelRows(S.times, Ix(tm, t))),
                                 !.measurements = Ar(<<Len(M.v), 1>>, M.v)]
              IN CanSelect(P) /\ SubData(P, NN, NN, NN) = D /\ SubVec(P, P.measurements, NN, NN) = M
(* masks on different axes may be applied one after another *)
Compose == LET P == [S EXCEPT !.data = SubData(S, NN, em, NN),
                              !.sensors = Ar(<<Len(Ix(em, e))>>, SelRows(S.sensors, Ix(em, e)))]
               Q == [P EXCEPT !.lam = SubLam(S, sm), !.data = SubData(P, sm, NN, NN)]
           IN SubData(Q, NN, NN, tm) = D
(* sample 1 reproduces the measurements: whenever selected, it is nearest *)
NearIs == LET I == Ix(sm, n)  J == Nearest(D, M)
          IN J # {} /\ ((\E i \in 1..Len(I) : I[i] = 1) => J = {i \in 1..Len(I) : I[i] = 1})
(* a weighted mean error over no weights is the sum of the residuals; equal weights scale it *)
Resid == LET Q == Residuals(S, sm, em, tm, <<>>)
             K == Len(SelCols(S, em, tm))
         IN /\ \A i \in 1..Rows(Q) : \A q \in 1..K : Q[i][q] = Div(Sub(M.v[q], At(D, i, q)), R(2))
            /\ K = 4 => Residuals(S, sm, em, tm, <<R(3), R(3), R(3), R(3)>>) = MScale(<<1, 2>>, Q)
            /\ K = 1 => Residuals(S, sm, em, tm, <<R(3)>>) = Q
(* loading: what is in the data set is assigned, what is not stays unset, names may be changed *)
Full == [lam |-> Ar(<<2>>, <<R(1), R(3)>>), data |-> Ar(<<2, 2>>, [q \in 1..4 |-> R(q)]),
         measurements |-> Ar(<<2>>, <<R(1), R(2)>>), lam_ref |-> Ar(<<1>>, <<R(2)>>), true_vals |-> Ar(<<2>>, <<R(5), R(6)>>)]
Names == <<"true_vals", "lam_ref", "measurements", "data", "lam">>
RECURSIVE DsOf(_, _, _)
DsOf(P, k, pre) == IF k > 5 THEN <<>>
                   ELSE (IF Names[k] \in P
                         THEN <<[n |-> IF pre THEN Names[k] \o "_x" ELSE Names[k], v |-> Full[Names[k]]]>>
                         ELSE <<>>) \o DsOf(P, k + 1, pre)
KwOf(P) == [k \in 1..5 |-> [f |-> Names[k], k |-> "name", n |-> Names[k] \o "_x"]]
NeedsObs == has \cap {"measurements", "true_vals"} # {}
Loads == LET r == Load(Empty, DsOf(has, 1, FALSE), <<>>)
         IN /\ r.ok = ((NeedsObs => "data" \in has) /\ ("lam_ref" \in has => "lam" \in has))
            /\ r.ok => /\ \A f \in Parts : IsSet(r.s[f]) = (f \in has)
                       /\ r.s.true_vals.k = "arr" => r.s.true_vals.v = Full.true_vals.v
                       /\ Missing(r.s, TRUE, TRUE) = (Parts \ has) \cup (IF "lam" \in has THEN {} ELSE {"domain"})
                       /\ Missing(r.s, FALSE, FALSE) = ({"lam", "data"} \ has) \cup (IF "lam" \in has THEN {} ELSE {"domain"})
            /\ Load(Empty, DsOf(has, 1, TRUE), KwOf(has)) = r            \* renamed
            /\ r.ok => Load(r.s, DsOf(has, 1, FALSE), <<>>) = r          \* loading twice
=============================================================================
