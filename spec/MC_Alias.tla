------------------------------ MODULE MC_Alias ------------------------------
(* Every interleaving of construction, setters, questions and later writes   *)
(* by the caller, for one problem; emits every labelled step for replay.     *)
EXTENDS Alias, TLC, Json
CONSTANTS Slots,     \* constructor arguments (each an array of that name)
          Required,  \* those that cannot be omitted
          Late,      \* arrays given later, to
          LateSlot,  \* this slot
          Asks, MaxV, Emit
VARIABLES heap, prob, given, last

Names == Slots \cup Late
Init == /\ heap = [n \in Names |-> 0]
        /\ prob = NoProb /\ given = [s \in Slots |-> ""] /\ last = "none"
Cap == IF prob.k = "none" THEN {} ELSE prob.cap

Emits(op, a, from) ==
    IF Emit THEN PrintT("EDGE " \o ToJson([from |-> from, op |-> op, a |-> a,
                                            to |-> [heap |-> heap', prob |-> prob']]))
    ELSE TRUE

Cur == [heap |-> heap, prob |-> prob]
DoNew == /\ prob.k = "none" /\ \A n \in Names : heap[n] = 0
         /\ \E S \in SUBSET (Slots \ Required) :
               \E sl \in {[s \in Slots |-> IF s \in Required \cup S THEN s ELSE ""]} :
                  /\ prob' = New(heap, sl) /\ given' = sl /\ heap' = heap
                  /\ last' = "new" /\ Emits("new", sl, Cur)
DoGive == /\ prob.k = "p"
          /\ \E n \in Late : /\ prob' = Give(heap, prob, LateSlot, n)
                             /\ UNCHANGED <<heap, given>> /\ last' = "give" /\ Emits("give", n, Cur)
DoAsk == /\ prob.k = "p"
         /\ \E a \in Asks : /\ UNCHANGED <<heap, prob, given>> /\ last' = "ask" /\ Emits("ask", a, Cur)
DoWrite == /\ prob.k = "p"
           /\ \E n \in Names : /\ heap[n] < MaxV
                               /\ heap' = Write(heap, n)
                               /\ UNCHANGED <<prob, given>> /\ last' = "write" /\ Emits("write", n, Cur)
Next == DoNew \/ DoGive \/ DoAsk \/ DoWrite

vars == <<heap, prob, given, last>>
(* what was captured is some version the array has had *)
CapturedThen == prob.k = "p" => \A s \in DOMAIN prob.cap :
                    prob.cap[s] # Absent => prob.cap[s].v <= heap[prob.cap[s].n]
(* a problem whose arrays were written since still answers as the one captured at construction *)
Isolated == prob.k = "p" => \A s \in Slots : \/ s = LateSlot
                                             \/ given[s] = "" /\ prob.cap[s] = Absent
                                             \/ prob.cap[s] = [n |-> given[s], v |-> 0]
(* who may change what *)
HeapByCaller == [][heap' # heap => last' = "write"]_vars
ProbBySetter == [][prob' # prob => last' \in {"new", "give"}]_vars
AnswersStay  == [][(prob.k = "p" /\ last' \in {"ask", "write"}) =>
                      \A a \in Asks : Answer(prob', a) = Answer(prob, a)]_vars
=============================================================================
