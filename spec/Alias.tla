------------------------------- MODULE Alias -------------------------------
(* What belongs to whom.  The caller owns a heap of arrays, lists and option *)
(* dictionaries; a problem owns what it captured of them when they were      *)
(* given to it.  Only the caller writes to the heap, only the problem's own  *)
(* setters change what it captured, and answers are terms over the captured  *)
(* values alone.                                                             *)
(*   heap : name -> version of its contents                                  *)
(*   prob : [k |-> "none"] or [k |-> "p", cap |-> slot -> captured value],   *)
(*          a captured value being [n |-> name, v |-> version], or Absent    *)
EXTENDS Integers, Sequences, FiniteSets

Absent == [n |-> "", v |-> 0]
NoProb == [k |-> "none"]
Capture(heap, name) == [n |-> name, v |-> heap[name]]

(* slots: slot -> name of the array given for it, "" when omitted *)
New(heap, slots) ==
    [k |-> "p", cap |-> [s \in DOMAIN slots |-> IF slots[s] = "" THEN Absent ELSE Capture(heap, slots[s])]]
Give(heap, prob, slot, name) == [prob EXCEPT !.cap[slot] = Capture(heap, name)]
Write(heap, name) == [heap EXCEPT ![name] = heap[name] + 1]

(* asking, solving, plotting: nothing changes; the answer depends on what was captured only *)
Answer(prob, ask) == [ask |-> ask, of |-> prob.cap]
=============================================================================
