------------------------------- MODULE MC_Wrap -------------------------------
(* Laws of the wrappers over small problems. *)
EXTENDS Wrap
CONSTANTS Vals, MaxD
VARIABLES ph, Q, t, nobs, split
R1(f) == [q \in DOMAIN f |-> R(f[q])]
Splits(d) == {<<>>} \cup UNION {{<<a>>, <<a, b>>} : a \in {[i \in 1..d |-> i], [i \in 1..d |-> d + 1 - i], <<d>>},
                                                    b \in {<<1>>, [i \in 1..d |-> d + 1 - i]}}
Init == ph = 0 /\ Q = <<<<Zero>>, <<Zero>>>> /\ t = <<Zero>> /\ nobs = 0 /\ split = <<>>
Next == ph = 0 /\ ph' = 1 /\ \E d \in 1..MaxD : \E a, b, z \in [1..d -> Vals] :
          /\ Q' = <<R1(a), R1(b)>> /\ t' = R1(z)
          /\ nobs' \in 0..d /\ split' \in Splits(d)
Sd == <<1, 2>>
W == WrapQoi(Q, t, Sd, nobs, split)
Cut(M, k) == TLCEval([i \in 1..Len(M) |-> SubSeq(M[i], 1, k)])
(* asking for the first observables is the problem of those columns *)
First == split = <<>> => W = WrapQoi(Cut(Q, NObs(Q, nobs)), SubSeq(t, 1, NObs(Q, nobs)), Sd, 0, <<>>)
(* a group of everything, in any order, is no split; columns follow the groups *)
OneGroup == Len(split) >= 1 /\ Len(split[1]) = Cols(Q) => \A i \in 1..2 : W[i][1] = WrapQoi(Q, t, Sd, nobs, <<>>)[i][1]
PerGroup == split # <<>> => \A h \in 1..Len(split) : \A i \in 1..2 :
               W[i][h] = WrapQoi(Q, t, Sd, nobs, <<split[h]>>)[i][1]
(* a sample reproducing the data has value zero; values are affine in the data *)
Exact == \A i \in 1..2 : Q[i] = t => \A h \in 1..Cols(W) : W[i][h] = Zero
Likely == LET d == SubSeq(t, 1, NObs(Q, nobs))
              X == <<<<Zero>>, <<One>>>>  box == <<<<Zero, One>>>>
              I == MostLikely(X, Q, d, box, Zero)
          IN /\ I # {}
             /\ MostLikely(X, Q, d, <<<<One, One>>>>, Zero) = {2}
             /\ \A i \in 1..2 : SubSeq(Q[i], 1, Len(d)) = d => i \in I
=============================================================================
