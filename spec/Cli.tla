--------------------------------- MODULE Cli ---------------------------------
(* The command line as a state machine over a results folder.                *)
(* A run is [cmd, seed, dpi, place, o]:                                      *)
(*   seed   -1 when none is given      place  "ok", "new", "deep" (its       *)
(*   parent is missing)                bad    "" or what is invalid:         *)
(*     "group" an option of the group, "option" one of the command, "data"   *)
(*     a data file that cannot be loaded                                     *)
(*   o      the options as a record of sequences, empty when not given       *)
(* Options not given take the documented defaults (Eff).  The folder is a    *)
(* set of figures [name, same, differ]: two figures with equal `same` are    *)
(* the same picture, two of one kind with different `differ` are not.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Dflt(v, d) == IF v = <<>> THEN d ELSE v
(* real-valued options are given in thousandths *)
Eff(r) ==
    CASE r.cmd = "comparison" ->
           [ns |-> Dflt(r.o.ns, <<1, 5, 10, 20>>), p |-> Dflt(r.o.p, <<5>>), n |-> Dflt(r.o.n, <<1000>>),
            mu |-> Dflt(r.o.mu, <<250>>), sigma |-> Dflt(r.o.sigma, <<100>>), dom |-> Dflt(r.o.dom, <<-1, 1>>)]
      [] r.cmd = "contours" -> [plot |-> Dflt(r.o.plot, <<"all">>), prob |-> Dflt(r.o.prob, <<"default">>)]
      [] r.cmd = "wme-covariance" ->
           [di |-> Dflt(r.o.di, <<20>>), do |-> Dflt(r.o.do, <<5>>), sigma |-> Dflt(r.o.sigma, <<100>>),
            ns |-> Dflt(r.o.ns, <<10, 100, 1000, 10000>>)]
      [] r.cmd = "high-dim-linear" -> [di |-> Dflt(r.o.di, <<100>>), do |-> Dflt(r.o.do, <<100>>)]
      [] r.cmd = "poisson-trials" ->
           [ns |-> Dflt(r.o.ns, <<5, 50, 500>>), sigma |-> Dflt(r.o.sigma, <<100>>), y1 |-> Dflt(r.o.y1, <<-100, 3500>>),
            y2 |-> Dflt(r.o.y2, <<-100, 2500>>), x1 |-> Dflt(r.o.x1, <<-4500, 500>>), x2 |-> Dflt(r.o.x2, <<-4500, 500>>)]
      [] r.cmd = "poisson-solve" -> [plot |-> Dflt(r.o.plot, <<"all">>), sigma |-> Dflt(r.o.sigma, <<100>>)]
      [] r.cmd = "adcirc-solve" ->
           [plot |-> Dflt(r.o.plot, <<"all">>), k |-> Dflt(r.o.k, <<2>>), wins |-> r.o.wins, mesh |-> Dflt(r.o.mesh, <<"wind_speed_mult_0">>),
            sigma |-> Dflt(r.o.sigma, <<100>>)]
      [] OTHER -> <<>>

Has(plot, name) == \E i \in 1..Len(plot) : plot[i] \in {name, "all"}
ContourFigs == {<<"data_mismatch", "data_mismatch_contour">>, <<"tikhonov", "tikhonov_contour">>, <<"consistent", "consistent_contour">>,
                <<"map", "classical_solution">>, <<"mud", "consistent_solution">>, <<"comparison", "map_compare_contour">>}
LastOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in (i + 1)..Len(s) : s[j] # x
SetOf(s) == {s[i] : i \in 1..Len(s)}
Fig(name, same, differ) == [name |-> name \o ".png", same |-> same, differ |-> differ]
(* dr: what the random draws of the run are determined by *)
Draw(r, k) == IF r.seed >= 0 THEN <<"seed", r.seed>> ELSE <<"run", k>>
(* every time of the data strictly inside a window *)
Inside(times, w) == Cardinality({i \in 1..Len(times) : w[1] < times[i] /\ times[i] < w[2]})

(* the figures of the k-th run; ns drawn one after the other for "comparison" *)
Figures(r, k, data) ==
    LET e == Eff(r)  d == Draw(r, k)
    IN CASE r.cmd = "comparison" ->
              LET q(N) == <<SubSeq(e.ns, 1, LastOf(e.ns, N)), e.p, e.n, e.mu, e.sigma, d, r.dpi>>
              IN {Fig("bip-vs-sip-" \o ToString(N), <<"param", N, q(N), e.dom>>, <<q(N), e.dom>>) : N \in SetOf(e.ns)} \cup
                 {Fig("bip-vs-sip-pf-" \o ToString(N), <<"obs", N, q(N), e.dom>>, q(N)) : N \in SetOf(e.ns)}
         [] r.cmd = "contours" -> \* the regularisation alone does not depend on the map
              {Fig(f[2], <<f[2], e.prob, r.dpi>>, IF f[1] = "tikhonov" THEN <<r.dpi>> ELSE <<e.prob, r.dpi>>) : f \in {g \in ContourFigs : Has(e.plot, g[1])}}
         [] r.cmd = "wme-covariance" -> LET q == <<e, d, r.dpi>> IN {Fig("lin-meas-cov-sd-convergence", <<"wme", q>>, q)}
         [] r.cmd = "high-dim-linear" ->
              LET q == <<e, d, r.dpi>> IN {Fig("lin-dim-cov-convergence", <<"dim", q>>, q), Fig("lin-rank-cov-convergence", <<"rank", q>>, q)}
         [] r.cmd = "poisson-trials" ->
              {LET q == <<N, e.sigma, e.y1, e.y2, e.x1, e.x2, d, r.dpi>> IN Fig("solution_n" \o ToString(N), <<"trial", q>>, q) : N \in SetOf(e.ns)}
         [] r.cmd = "poisson-solve" ->
              LET q == <<e.sigma, d, r.dpi>>
              IN (IF Has(e.plot, "response") THEN {Fig("response_surface", <<"response", q>>, q)} ELSE {}) \cup
                 (IF Has(e.plot, "qoi") THEN {Fig("learned_qoi", <<"qoi", q>>, q)} ELSE {}) \cup
                 (IF Has(e.plot, "densities") THEN {Fig("lam1", <<"lam1", q>>, q), Fig("lam2", <<"lam2", q>>, q)} ELSE {})
         [] r.cmd = "adcirc-solve" ->
              (IF Has(e.plot, "full_ts") THEN {Fig("adcirc_full_ts", <<"ts", e.wins, e.sigma, d, r.dpi>>, <<e.wins, e.sigma, d, r.dpi>>)} ELSE {}) \cup
              (IF Has(e.plot, "mesh") THEN {Fig("si-" \o e.mesh[1], <<"mesh", e.mesh, r.dpi>>, <<e.mesh, r.dpi>>)} ELSE {}) \cup
              UNION {LET w == e.wins[i]
                         sfx == ToString(e.k[1]) \o "_" \o ToString(Inside(data.times, w))
                         q == <<i, w, e.k, e.sigma, d, r.dpi>>
                     IN (IF Has(e.plot, "ts-pca") THEN {Fig("pca_vecs_" \o sfx, <<"pca", q>>, q)} ELSE {}) \cup
                        (IF Has(e.plot, "updated_dist") THEN {Fig("updated_dist_" \o sfx, <<"dist", q>>, q)} ELSE {}) \cup
                        (IF Has(e.plot, "learned_qoi") THEN {Fig("qoi_" \o sfx, <<"lqoi", q>>, q)} ELSE {})
                     : i \in 1..Len(e.wins)}
         [] OTHER -> {}

(* ------------------------------ the machine ------------------------------ *)
Refused(r) == r.bad # "" \/ r.place = "deep"
Start == [exists |-> FALSE, figs |-> {}, n |-> 0]
Overlay(old, new) == {f \in old : \A g \in new : g.name # f.name} \cup new
Run(s, r, data) ==
    LET s2 == [s EXCEPT !.n = @ + 1]
    IN IF Refused(r)
       THEN [s2 EXCEPT !.exists = IF r.bad \in {"option", "data"} /\ r.place # "deep" THEN TRUE ELSE @]
       ELSE [s2 EXCEPT !.exists = TRUE, !.figs = Overlay(@, Figures(r, s2.n, data))]
Names(s) == {f.name : f \in s.figs}
(* the table printed by trials: one row per number, in increasing order *)
Increasing(ns) == SetToSortSeq(1..Len(ns), LAMBDA i, j : ns[i] < ns[j] \/ (ns[i] = ns[j] /\ i < j))
Table(r) == IF r.cmd = "poisson-trials" /\ ~Refused(r)
            THEN LET ns == Eff(r).ns IN [i \in 1..Len(ns) |-> ns[Increasing(ns)[i]]] ELSE <<>>
=============================================================================
