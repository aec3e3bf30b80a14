------------------------------ MODULE TraceBase ------------------------------
(* Code -> specification: every case recorded from the running code is a     *)
(* sequence of events (public calls with arguments and what they returned).  *)
(* Each case is one initial state; consuming an event is one step, which     *)
(* moves the specification state with the specification's own action and     *)
(* evaluates the failing clauses.  Verdicts are total: a mismatch is printed *)
(* with the clause that failed and validation goes on.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS InitSt(_),          \* case -> specification state
          StepSt(_, _, _),    \* case, state, event -> state after the event
          Fails(_, _, _, _),  \* case, state before, state after, event -> set of failing clauses
          Undecided(_, _, _, _) \* exact value outside TLC's integers

VARIABLES c, l, st

(* bound by a quantifier, so that the file is read once *)
Init == \E cases \in {ndJsonDeserialize(IOEnv.TRACE)} :
        \E i \in 1..Len(cases) : /\ c = cases[i]
                                 /\ l = 0
                                 /\ st = TLCEval(InitSt(cases[i]))

(* values are bound by quantifiers over singletons so that TLC evaluates each once *)
Next == /\ l < Len(c.ev)
        /\ l' = l + 1
        /\ c' = c
        /\ \E ev \in {c.ev[l + 1]} : \E t \in {TLCEval(StepSt(c, st, ev))} :
              /\ st' = t
              /\ \E f \in {Fails(c, st, t, ev)} :
                    IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", c.id, l + 1, f>>)
              /\ \E u \in {Undecided(c, st, t, ev)} :
                    IF u THEN PrintT(<<"SKIP", c.id, l + 1>>) ELSE TRUE
=============================================================================
