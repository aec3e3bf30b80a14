------------------------------ MODULE MC_Bayes ------------------------------
(* Every history of calls on a Bayesian problem over small sets of settings; *)
(* emits every labelled step for replay on the real class.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Prs, Lls, Emit
VARIABLES s, g
VanishesFor(pr, ll) == ll.id = "l0" \/ (pr.k = "pr" /\ pr.id = "p0" /\ ll.id = "l9")
INSTANCE Bayes WITH Vanishes <- VanishesFor

DP(x) == IF x = "def" THEN DefaultPrior ELSE [k |-> "pr", id |-> x]
DL(x) == [k |-> "ll", id |-> x]
Init == s = BInit /\ g = Cfg0
Ops ==   {[op |-> "prior", a |-> d, log |-> FALSE] : d \in Prs}
    \cup {[op |-> "likelihood", a |-> d, log |-> b] : d \in Lls, b \in BOOLEAN}
    \cup {[op |-> o, a |-> "", log |-> FALSE] : o \in {"fit", "map_point", "estimate", "plot_param", "plot_obs"}}
StepS(o, x) ==
    CASE o.op = "prior" -> SetPrior(x, DP(o.a))
      [] o.op = "likelihood" -> SetLik(x, DL(o.a), o.log)
      [] o.op = "fit" -> Fit([x EXCEPT !.Ps = None])
      [] OTHER -> Ask(x)
StepG(o, x) ==
    CASE o.op = "prior" -> [x EXCEPT !.Pr = DP(o.a)]
      [] o.op = "likelihood" -> [x EXCEPT !.LL = Lik(DL(o.a), o.log)]
      [] OTHER -> x
Refused(o, x) == o.op \notin {"prior", "likelihood"} /\ ~Answers(x)
Next == \E o \in Ops :
    /\ s' = StepS(o, s)
    /\ g' = StepG(o, g)
    /\ IF Emit THEN PrintT("EDGE " \o ToJson([from |-> s, op |-> o, to |-> s', refused |-> Refused(o, s),
                                               ask |-> CAnswer(g')]))
       ELSE TRUE

NeverStale == s.Ps # None => s.Ps = CAnswer(g)
AsFresh == Ask(s).Ps = CAnswer(g)
Idempotent == Ask(Ask(s)) = Ask(s)
(* the mode is a way of computing, not part of the answer *)
ModeIrrelevant == \A b \in BOOLEAN :
    s.LL # None => LET u == Ask(SetLik(s, s.LL.d, b)).Ps   v == CAnswer(g)
                   IN (u = None) = (v = None) /\ (u # None => u.pr = v.pr /\ u.ll = v.ll)
(* a refusal keeps the settings *)
RefusalKeeps == [][\A o \in Ops : Refused(o, s) => StepG(o, g) = g /\ StepS(o, s).LL = s.LL]_<<s, g>>
=============================================================================
