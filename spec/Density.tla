------------------------------- MODULE Density -------------------------------
(* The data-consistent density problem as a state machine over settings.     *)
(*                                                                           *)
(* The problem object caches: weights W, initial In, observed Ob, predicted  *)
(* Pr and the updated density Up (with the ratio it was built from).  Every  *)
(* field holds a *term*: which setting the cached value was computed from.   *)
(* The operators below are the public calls; MC_Density explores every       *)
(* history of calls, T_Density evaluates the terms exactly for recorded      *)
(* histories, and the replay driver evaluates them numerically.              *)
EXTENDS Integers, Sequences

None == [k |-> "none"]
DefaultInitial == [k |-> "definit"]     \* uniform over the problem's domain
DefaultObserved == [k |-> "defobs"]     \* standard normal
DefaultBw == "bw0"
KDE(bw) == [k |-> "kde", bw |-> bw]     \* kernel density estimate of the predicted samples
IsKDE(d) == d.k = "kde"

DInit(w) == [W |-> w, In |-> None, Ob |-> None, Pr |-> None, Up |-> None]

SetWeights(s, w) == [s EXCEPT !.W = w, !.Pr = None, !.Up = None]
SetInitial(s, d) == [s EXCEPT !.In = d, !.Pr = None, !.Up = None]
SetObserved(s, d) == [s EXCEPT !.Ob = d, !.Up = None]
(* the predicted density remembers the weights it was estimated with *)
SetPredicted(s, d) == [s EXCEPT !.Pr = [k |-> "pred", d |-> d, w |-> s.W], !.Up = None]
SetPredictedW(s, d, w) == SetPredicted(SetWeights(s, w), d)

Fit(s, bw) ==
    LET a == IF s.In = None THEN SetInitial(s, DefaultInitial) ELSE s
        b == IF a.Pr = None THEN SetPredicted(a, KDE(bw)) ELSE a
        e == IF b.Ob = None THEN SetObserved(b, DefaultObserved) ELSE b
    IN [e EXCEPT !.Up = [k |-> "up", w |-> e.W, in |-> e.In, ob |-> e.Ob, pr |-> e.Pr]]

(* any question about the solution fits first if there is no current answer *)
Ask(s) == IF s.Up = None THEN Fit(s, DefaultBw) ELSE s

(* plots need the distribution they draw; then they are questions *)
PlotParamEnabled(s) == s.In # None
PlotObsEnabled(s) == s.Ob # None

(* ---------------------------- the ideal view ----------------------------- *)
(* What a user has asked for: the settings in force.  Resetting weights or   *)
(* initial withdraws the predicted density, and a predicted density set      *)
(* before any initial is in force only until one is set (both documented).   *)
Cfg0(w) == [W |-> w, In |-> None, Ob |-> None, Pr |-> None]
CWeights(g, w) == [g EXCEPT !.W = w, !.Pr = None]
CInitial(g, d) == [g EXCEPT !.In = d, !.Pr = None]
CObserved(g, d) == [g EXCEPT !.Ob = d]
CPredicted(g, d) == [g EXCEPT !.Pr = d]
CPredictedW(g, d, w) == CPredicted(CWeights(g, w), d)
(* a fit fixes the defaults it had to choose *)
CFit(g, bw) ==
    LET a == IF g.In = None THEN CInitial(g, DefaultInitial) ELSE g
        b == IF a.Pr = None THEN CPredicted(a, KDE(bw)) ELSE a
    IN IF b.Ob = None THEN CObserved(b, DefaultObserved) ELSE b

(* The answer a fresh problem given exactly these settings would give *)
Answer(g) ==
    LET h == CFit(g, DefaultBw)
    IN [k |-> "up", w |-> h.W, in |-> h.In, ob |-> h.Ob,
        pr |-> [k |-> "pred", d |-> h.Pr, w |-> h.W]]
=============================================================================
