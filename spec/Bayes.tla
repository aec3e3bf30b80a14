-------------------------------- MODULE Bayes --------------------------------
(* The Bayesian problem as a state machine over settings: prior Pr,          *)
(* likelihood LL (with the mode, plain or logarithmic, it was given in) and  *)
(* the posterior Ps of the last fit, each field holding the *term* it was    *)
(* computed from.  Vanishes(pr, ll): the product is zero at every sample.    *)
EXTENDS Integers, Sequences
CONSTANT Vanishes(_, _)

None == [k |-> "none"]
DefaultPrior == [k |-> "defprior"]      \* uniform over the problem's domain
Lik(d, log) == [k |-> "lik", d |-> d, log |-> log]

BInit == [Pr |-> None, LL |-> None, Ps |-> None]
SetPrior(s, d) == [s EXCEPT !.Pr = d, !.Ps = None]
SetLik(s, d, log) == [s EXCEPT !.LL = Lik(d, log), !.Ps = None]

(* a fit needs a likelihood and a posterior that does not vanish *)
Prior(s) == IF s.Pr = None THEN DefaultPrior ELSE s.Pr
CanFit(s) == s.LL # None /\ ~Vanishes(Prior(s), s.LL.d)
Fit(s) ==
    LET a == [s EXCEPT !.Pr = Prior(s)]
    IN IF CanFit(s) THEN [a EXCEPT !.Ps = [k |-> "post", pr |-> a.Pr, ll |-> a.LL.d, log |-> a.LL.log]]
       ELSE a
Ask(s) == IF s.Ps = None THEN Fit(s) ELSE s
Answers(s) == s.Ps # None \/ CanFit(s)

(* settings in force, and the answer a fresh problem with them would give *)
Cfg0 == [Pr |-> None, LL |-> None]
CAnswer(g) ==
    IF g.LL = None \/ Vanishes(Prior(g), g.LL.d) THEN None
    ELSE [k |-> "post", pr |-> Prior(g), ll |-> g.LL.d, log |-> g.LL.log]
=============================================================================
