--------------------------------- MODULE Wme ---------------------------------
(* Weighted mean error maps.  Everything is stated without the common factor *)
(* 1/sqrt(N), N the number of data: the map itself is the Raw value divided  *)
(* by sqrt(N).                                                               *)
EXTENDS Mat

(* residual sum of one sample's predictions *)
WmeRaw(p, d, sd) == SumSeq([j \in 1..Len(d) |-> Div(Sub(p[j], d[j]), sd[j])])
WmeRows(P, d, sd) == TLCEval([i \in 1..Rows(P) |-> WmeRaw(P[i], d, sd)])
Mean(d) == Div(SumSeq(d), R(Len(d)))
(* standard deviation of the data around their mean *)
Var(d) == LET m == Mean(d)
          IN Div(SumSeq([j \in 1..Len(d) |-> Mul(Sub(d[j], m), Sub(d[j], m))]), R(Len(d)))
Std(d) == RSqrt(Var(d))

(* linear predictions op x: one row per datum, or one row repeated for all *)
Row(op, j) == IF Rows(op) = 1 THEN op[1] ELSE op[j]
LinRawA(op, d, sd) == TLCEval([k \in 1..Cols(op) |-> SumSeq([j \in 1..Len(d) |-> Div(Row(op, j)[k], sd[j])])])
LinRawB(d, sd) == Neg(SumSeq([j \in 1..Len(d) |-> Div(d[j], sd[j])]))

(* accepted: positive levels, one operator row per datum or a single row with a scalar level *)
Pos(x) == Fin(x) /\ x[1] > 0
Accept(op, d, sdk, sd) ==      \* sdk: "one" (scalar) or "many"
    IF Rows(op) = 1 THEN sdk = "one" /\ Pos(sd[1])
    ELSE /\ Rows(op) = Len(d)
         /\ sdk = "one" \/ Len(sd) = Len(d)
         /\ \A j \in 1..Len(sd) : Pos(sd[j])
(* lists of operators, data and levels: levels beyond the last quantity are ignored *)
ListsOk(no, nd, ns) == no = nd /\ nd <= ns
Levels(d, sdk, sd) == IF sdk = "one" THEN [j \in 1..Len(d) |-> sd[1]] ELSE sd
=============================================================================
