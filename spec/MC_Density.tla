----------------------------- MODULE MC_Density -----------------------------
(* Every history of public calls on a density problem, over small sets of    *)
(* abstract weights and distributions.  Also emits every labelled step, for  *)
(* replay on the real class (spec -> code).                                  *)
EXTENDS Density, TLC, Json
CONSTANTS Ws, Ins, Obs, Prs, Bws, Emit
VARIABLES s, g, up0      \* cache, settings in force, answer before the last step
vars == <<s, g>>

W0 == CHOOSE w \in Ws : w = "w0"
DI(x) == IF x = "def" THEN DefaultInitial ELSE [k |-> "in", id |-> x]
DO(x) == IF x = "def" THEN DefaultObserved ELSE [k |-> "ob", id |-> x]
DP(x) == IF x \in Bws THEN KDE(x) ELSE [k |-> "pr", id |-> x]

Init == s = DInit(W0) /\ g = Cfg0(W0) /\ up0 = None

Ops ==   {[op |-> "weights", a |-> w, w |-> ""] : w \in Ws}
   \cup {[op |-> "initial", a |-> d, w |-> ""] : d \in Ins}
   \cup {[op |-> "observed", a |-> d, w |-> ""] : d \in Obs}
   \cup {[op |-> "predicted", a |-> d, w |-> ""] : d \in Prs \cup Bws}
   \cup {[op |-> "predictedw", a |-> d, w |-> w] : d \in Prs \cup Bws, w \in Ws}
   \cup {[op |-> "fit", a |-> b, w |-> ""] : b \in Bws}
   \cup {[op |-> o, a |-> "", w |-> ""] : o \in {"mud_point", "estimate", "expected_ratio"}}
   \cup {[op |-> o, a |-> "", w |-> ""] : o \in {"plot_param", "plot_obs"}}

Enabled(o, x) == CASE o.op = "plot_param" -> PlotParamEnabled(x)
                   [] o.op = "plot_obs" -> PlotObsEnabled(x)
                   [] OTHER -> TRUE
StepS(o, x) ==
    CASE o.op = "weights" -> SetWeights(x, o.a)
      [] o.op = "initial" -> SetInitial(x, DI(o.a))
      [] o.op = "observed" -> SetObserved(x, DO(o.a))
      [] o.op = "predicted" -> SetPredicted(x, DP(o.a))
      [] o.op = "predictedw" -> SetPredictedW(x, DP(o.a), o.w)
      [] o.op = "fit" -> Fit(x, o.a)
      [] OTHER -> Ask(x)
StepG(o, x) ==
    CASE o.op = "weights" -> CWeights(x, o.a)
      [] o.op = "initial" -> CInitial(x, DI(o.a))
      [] o.op = "observed" -> CObserved(x, DO(o.a))
      [] o.op = "predicted" -> CPredicted(x, DP(o.a))
      [] o.op = "predictedw" -> CPredictedW(x, DP(o.a), o.w)
      [] o.op = "fit" -> CFit(x, o.a)
      [] OTHER -> CFit(x, DefaultBw)

Next == \E o \in Ops :
    /\ Enabled(o, s)
    /\ s' = StepS(o, s)
    /\ g' = StepG(o, g)
    /\ up0' = None
    /\ IF Emit
       THEN PrintT("EDGE " \o ToJson([from |-> s, op |-> o, to |-> s', ask |-> Ask(s').Up]))
       ELSE TRUE

(* -------------------------------- properties ----------------------------- *)
TypeOK == s.W \in Ws
(* an answer that is kept was computed from the settings in force *)
NeverStale == s.Up # None => s.Up = Answer(g)
(* and the answer that would be given next is the fresh problem's answer *)
AsFresh == Ask(s).Up = Answer(g)
(* asking twice, or asking after a plot, changes nothing *)
Idempotent == Ask(Ask(s)) = Ask(s) /\ Answer(CFit(g, DefaultBw)) = Answer(g)
(* a predicted density is never used with weights it was not estimated with *)
PredictedFresh == s.Pr # None => s.Pr.w = s.W
(* the fit uses one consistent set of settings *)
Coherent == s.Up # None => /\ s.Up.w = s.W /\ s.Up.in = s.In
                           /\ s.Up.ob = s.Ob /\ s.Up.pr = s.Pr
(* action properties: what each call must leave alone *)
Frame == [][ /\ (s'.W # s.W => s'.Pr.k = "none" \/ s'.Pr.w = s'.W)
             /\ (s'.In # s.In => s'.W = s.W)
             /\ (s'.Ob # s.Ob => s'.W = s.W) ]_vars
=============================================================================
