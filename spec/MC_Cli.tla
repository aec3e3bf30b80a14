-------------------------------- MODULE MC_Cli --------------------------------
(* Every history of up to Depth runs over a palette of runs.                 *)
EXTENDS Cli
CONSTANT Depth
Seeds == {-1, 1, 2}
Blank == [ns |-> <<>>, p |-> <<>>, n |-> <<>>, mu |-> <<>>, sigma |-> <<>>, dom |-> <<>>, plot |-> <<>>, prob |-> <<>>, di |-> <<>>,
          do |-> <<>>, y1 |-> <<>>, y2 |-> <<>>, x1 |-> <<>>, x2 |-> <<>>, k |-> <<>>, wins |-> <<>>, mesh |-> <<>>]
R0(c, s) == [cmd |-> c, seed |-> s, dpi |-> 20, place |-> "ok", bad |-> "", o |-> Blank]
Runs == {[R0("comparison", s) EXCEPT !.o.ns = ns] : s \in Seeds, ns \in {<<1>>, <<2, 1>>}}
        \cup {[R0("contours", s) EXCEPT !.o.plot = p] : s \in {-1, 1}, p \in {<<>>, <<"map">>, <<"nothing">>}}
        \cup {[R0("poisson-trials", 1) EXCEPT !.o.ns = ns] : ns \in {<<3, 2>>, <<2>>}}
        \cup {[R0("adcirc-solve", 1) EXCEPT !.o.wins = w, !.o.plot = <<"updated_dist">>] : w \in {<<>>, << <<0, 3>> >>, << <<0, 3>>, <<1, 9>> >>}}
        \cup {[R0("comparison", 1) EXCEPT !.bad = b] : b \in {"group", "option"}}
        \cup {[R0("contours", 1) EXCEPT !.place = "deep"]}
        \cup {[R0("contours", 1) EXCEPT !.o.plot = <<"map">>, !.o.prob = <<"other">>]}
Data == [times |-> <<1, 2, 3, 4>>]
VARIABLES s, last
Init == s = Start /\ last = [r |-> R0("", 0), before |-> Start]
Next == s.n < Depth /\ \E r \in Runs : s' = Run(s, r, Data) /\ last' = [r |-> r, before |-> s]
Spec == Init /\ [][Next]_<<s, last>>

TypeOK == s.n \in 0..Depth /\ s.exists \in BOOLEAN
OnePicturePerName == \A f, g \in s.figs : f.name = g.name => f = g
FiguresNeedAFolder == s.figs # {} => s.exists
(* a refused run leaves every figure as it was *)
RefusalWritesNothing == last.r.cmd # "" /\ Refused(last.r) => s.figs = last.before.figs
(* figures not of this run stay; nothing is ever taken away *)
OnlyAdds == Names(last.before) \subseteq Names(s)
OthersStay == last.r.cmd # "" => \A f \in last.before.figs : f \in s.figs \/ \E g \in Figures(last.r, s.n, Data) : g.name = f.name
(* a run with a seed, again, changes nothing *)
SeededRunsRepeat == (last.r.cmd # "" /\ last.r.seed >= 0) => Run(s, last.r, Data).figs = s.figs
(* runs with seeds that share no figure may be made in either order *)
SeededRunsCommute == s.n > 1 \/ \A a, b \in Runs :
    (a.seed >= 0 /\ b.seed >= 0 /\ {f.name : f \in Figures(a, 0, Data)} \cap {f.name : f \in Figures(b, 0, Data)} = {})
    => (Refused(a) \/ Refused(b) \/ Run(Run(s, a, Data), b, Data).figs = Run(Run(s, b, Data), a, Data).figs)
(* giving a default explicitly is the same run *)
DefaultsAreDefaults == s.n > 0 \/ \A r \in Runs : r.cmd = "comparison" => Figures([r EXCEPT !.o.p = <<5>>, !.o.sigma = <<100>>], 1, Data) = Figures(r, 1, Data)
(* deterministic commands do not depend on the seed *)
ContoursIgnoreSeeds == s.n > 0 \/ \A a, b \in Runs : (a.cmd = "contours" /\ b.cmd = "contours" /\ a.o = b.o) => Figures(a, 1, Data) = Figures(b, 2, Data)
TableSorted == s.n > 0 \/ \A r \in Runs : LET t == Table(r) IN \A i \in 1..(Len(t) - 1) : t[i] <= t[i + 1]
=============================================================================
