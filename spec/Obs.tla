--------------------------------- MODULE Obs ---------------------------------
(* Observations recorded from the code, and their comparison with exact      *)
(* values.  An observation is tagged by its field k:                         *)
(*   "arr"  shape: sequence of naturals, v: flattened sequence of rationals  *)
(*   "err"  t: exception class name     "none"  the value None               *)
(*   "str"  s: string                   "other" r: a description             *)
EXTENDS Mat

MaxDen == 40000

(* Observed o equals exact e; undecided (TRUE) when e has no small form *)
Decidable(e) == ~IsOvf(e) /\ e[2] <= MaxDen /\ RAbsI(e[1]) <= 1000000000
EqR(o, e) == ~Decidable(e) \/ o = e
EqRSeq(o, e) == Len(o) = Len(e) /\ \A i \in 1..Len(e) : EqR(o[i], e[i])
UndecSeq(e) == \E i \in 1..Len(e) : ~Decidable(e[i])

IsArr(o) == o.k = "arr"
IsErr(o) == o.k = "err"
IsNone(o) == o.k = "none"
Scalar(o, e) == IsArr(o) /\ Len(o.v) = 1 /\ EqR(o.v[1], e)
ArrIs(o, shape, e) == IsArr(o) /\ o.shape = shape /\ EqRSeq(o.v, e)
ValsAre(o, e) == IsArr(o) /\ EqRSeq(o.v, e)
VecIs(o, e) == ArrIs(o, <<Len(e)>>, e)
MatIs(o, E) == ArrIs(o, <<Rows(E), Cols(E)>>, Flat(E))
NonFinite(o) == IsArr(o) /\ \E i \in 1..Len(o.v) : o.v[i][2] = 0
Clause(b, name) == IF b THEN {} ELSE {name}
=============================================================================
