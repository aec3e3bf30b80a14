--------------------------------- MODULE T_Rng ---------------------------------
(* Recorded histories against the stream of random numbers.  After every call *)
(* the recorder says where the generator is (`at': the streams and places    *)
(* whose state it has), what each number was (`terms': likewise) and the identity of every setting of the process     *)
(* (error handling, plot parameters, environment, folder and its files).      *)
(*   [op, key, seed, n, reveals, terms, at, set, name]                        *)
(*   op  "seed" | "noise" | "quiet" | "free" (draws an unspecified amount:    *)
(*        the stream goes on as one named `name') | "again" (a choice made    *)
(*        anew from where the one before began: `seen' are the series chosen  *)
(*        then and now)                                                       *)
EXTENDS Rng, FiniteSets, Json, IOUtils
VARIABLES c, l, st

InitSt(k) == [s |-> Stream(k.start), set |-> k.set0]
Begins(e) == IF e.op = "noise" THEN e.seed ELSE ""
StepSt(k, t, e) ==
    [t EXCEPT !.s = CASE e.op = "seed"  -> Stream(e.seed)
                      [] e.op = "noise" -> Noise(t.s, e.seed, e.n)
                      [] e.op = "free"  -> Stream(e.name)
                      [] OTHER          -> t.s]
Named(o, w) == Len(o) = Len(w) /\ \A i \in 1..Len(w) : \E j \in 1..Len(o[i]) : o[i][j] = w[i]
Fails(k, b, t, e) ==
         (IF \E i \in 1..Len(e.at) : e.at[i] = t.s THEN {} ELSE {"stream:" \o e.key})
    \cup (IF e.set = t.set THEN {} ELSE {"settings:" \o e.key})
    \cup (IF e.op = "again" /\ e.seen[1] # e.seen[2] THEN {"chosen:" \o e.key} ELSE {})
    \cup (IF e.op = "noise" /\ e.reveals /\ ~Named(e.terms, NoiseTerms(b.s, e.seed, e.n)) THEN {"noise:" \o e.key} ELSE {})
Undecided(k, b, t, e) == FALSE
INSTANCE TraceBase
=============================================================================
