------------------------------ MODULE T_Alias ------------------------------
(* Recorded calls against the ownership model.  A case is a history of calls *)
(* on any part of the library; after every event the recorder fingerprints   *)
(* all that the caller owns (arguments, options, defaults of the functions)  *)
(* and all the inputs every live problem holds.                              *)
(*   [op, who, key, ans, heap, defs, ins, wrote]                             *)
(*   op    "new" | "give" | "ask" | "call" | "write" | "free"                *)
(*   who   number of the problem made or addressed (0: none)                 *)
(*   key   what was asked ("" : nothing repeatable)                          *)
(*   ans   identity of the answer given                                      *)
(*   heap  sequence of [n, f]; ins: sequence of [p, f]; wrote: names         *)
(*   iso   the problem made copies (density, Bayes, linear Gaussian)         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, st

Names(s) == {s[i].n : i \in 1..Len(s)}
Of(s, n) == (CHOOSE i \in 1..Len(s) : s[i].n = n)
Get(s, n) == s[Of(s, n)].f
ToSet(s) == {s[i] : i \in 1..Len(s)}

(* state: what the specification says everybody owns now *)
InitSt(k) == [heap |-> k.heap0, defs |-> k.defs0, ins |-> <<>>, memo |-> {}]

Memo(s, who, key) == {m \in s.memo : m.who = who /\ m.key = key}
StepSt(k, s, e) ==
    [heap |-> IF e.op = "write"
              THEN [i \in 1..Len(s.heap) |-> IF s.heap[i].n \in ToSet(e.wrote)
                                             THEN [n |-> s.heap[i].n, f |-> Get(e.heap, s.heap[i].n)]
                                             ELSE s.heap[i]]
              ELSE s.heap,
     defs |-> s.defs,
     \* a new problem owns what it made of its arguments; its setter may change it
     ins  |-> IF e.op = "new" THEN Append(s.ins, [n |-> e.who, f |-> Get(e.ins, e.who)])
              ELSE IF e.op = "give"
              THEN [i \in 1..Len(s.ins) |-> IF s.ins[i].n = e.who THEN [n |-> e.who, f |-> Get(e.ins, e.who)] ELSE s.ins[i]]
              ELSE s.ins,
     memo |-> IF e.op = "give" THEN {m \in s.memo : m.who # e.who}
              ELSE IF e.key # "" /\ Memo(s, e.who, e.key) = {}
              THEN s.memo \cup {[who |-> e.who, key |-> e.key, ans |-> e.ans]}
              ELSE s.memo]

Fails(k, s, t, e) ==
         {"caller-data:" \o n : n \in {n \in Names(t.heap) : Get(e.heap, n) # Get(t.heap, n)}}
    \cup (IF e.defs = t.defs THEN {} ELSE {"defaults"})
    \cup {"problem-inputs:" \o ToString(n) : n \in {n \in Names(t.ins) : Get(e.ins, n) # Get(t.ins, n)}}
    \cup (IF e.key # "" /\ e.op # "give" /\ \E m \in Memo(s, e.who, e.key) : m.ans # e.ans
          THEN {"answer:" \o e.key} ELSE {})
Undecided(k, s, t, e) == FALSE
INSTANCE TraceBase
=============================================================================
