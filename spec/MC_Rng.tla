-------------------------------- MODULE MC_Rng --------------------------------
(* Every interleaving of seeding, noise through each entry point, quiet calls *)
(* and choices, for streams up to MaxPos numbers long; emits every labelled   *)
(* step for replay.  `shadow' is a stream that sees the seeds, the noise and  *)
(* the choices only; `out' what was drawn since the stream was begun.         *)
EXTENDS Rng, Json
CONSTANTS Seeds, Quiets, Takes, Gives, Sizes, MaxPos, Emit
VARIABLES s, shadow, out

vars == <<s, shadow, out>>
Init == s = Stream("start") /\ shadow = Stream("start") /\ out = <<>>
Edge(op, a, n, k, terms) ==
    IF Emit THEN PrintT("EDGE " \o ToJson([from |-> s, op |-> op, a |-> a, n |-> n, seed |-> k, terms |-> terms, to |-> s']))
    ELSE TRUE
DoSeed == \E k \in Seeds : /\ s' = Stream(k) /\ shadow' = Stream(k) /\ out' = <<>> /\ Edge("seed", "", 0, k, <<>>)
(* entry points: Gives can be given a seed, Takes cannot *)
DoNoise == \E n \in Sizes : \E via \in Gives \cup Takes : \E k \in (IF via \in Gives THEN Seeds ELSE {}) \cup {""} :
              /\ Begin(s, k).pos + n <= MaxPos
              /\ s' = Noise(s, k, n) /\ shadow' = Noise(shadow, k, n)
              /\ out' = (IF k = "" THEN out ELSE <<>>) \o NoiseTerms(s, k, n)
              /\ Edge("noise", via, n, k, NoiseTerms(s, k, n))
DoQuiet == \E a \in Quiets : s' = s /\ UNCHANGED <<shadow, out>> /\ Edge("quiet", a, 0, "", <<>>)
DoChoose == s' = Stream("chosen") /\ shadow' = Stream("chosen") /\ out' = <<>> /\ Edge("choose", "", 0, "", <<>>)
Next == DoSeed \/ DoNoise \/ DoQuiet \/ DoChoose

Undisturbed == s = shadow
Gapless  == out = Draws(Stream(s.base), s.pos)
NoReuse  == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
SplitLaw == \A m, n \in Sizes : NoiseTerms(s, "", m) \o NoiseTerms(Noise(s, "", m), "", n) = NoiseTerms(s, "", m + n)
Repeats  == \A k \in Seeds : \A n \in Sizes : NoiseTerms(s, k, n) = NoiseTerms(Stream("start"), k, n)
SeedLaw  == \A k \in Seeds : \A n \in Sizes : Noise(s, k, n) = Noise(Stream(k), "", n)
=============================================================================
