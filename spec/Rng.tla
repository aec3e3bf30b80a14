---------------------------------- MODULE Rng ----------------------------------
(* The one stream of random numbers.  A stream is where it was begun (a seed, *)
(* or wherever the caller left the generator) and how many numbers have been  *)
(* drawn from it since; a number is named by the stream's beginning and its   *)
(* place.  Only noise draws (and the choice of series of a time-series plot,  *)
(* after which the stream is one of its own); everything else is quiet.       *)
EXTENDS Integers, Sequences, TLC

Stream(b)     == [base |-> b, pos |-> 0]
Begin(s, k)   == IF k = "" THEN s ELSE Stream(k)
Draws(s, n)   == [i \in 1..n |-> [b |-> s.base, i |-> s.pos + i]]
Advance(s, n) == [s EXCEPT !.pos = @ + n]
(* adding noise to n numbers, the seed k given ("": none) *)
Noise(s, k, n)      == Advance(Begin(s, k), n)
NoiseTerms(s, k, n) == Draws(Begin(s, k), n)
=============================================================================
