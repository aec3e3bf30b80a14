----------------------------- MODULE MC_IterLin -----------------------------
(* Histories of solve calls on small systems of rows: each step meets its    *)
(* own row, nothing moves away from a common solution, bookkeeping composes. *)
EXTENDS IterLin
CONSTANTS MaxEpochs
VARIABLES pb, order, ch, fin
vars == <<pb, order, ch, fin>>
E == {R(-1), R(0), R(1), R(2)}
Rws == {<<a, b>> : a \in {R(1), R(0), R(-1)}, b \in {R(1), R(2), R(0)}} \ {<<Zero, Zero>>}
Cs == {Eye(2), << <<R(2), One>>, <<One, One>> >>}
Orders == {<<1, 2>>, <<2, 1>>, <<1>>, <<2, 1, 2>>}
Mk(r1, r2, C, yy) == [A |-> <<r1, r2>>, b |-> << <<One>>, <<Zero>> >>, y |-> yy, C |-> C,
                     Co |-> << <<R(2), Zero>>, <<Zero, One>> >>, m |-> << <<R(1)>>, <<R(-1)>> >>]
Init == /\ \E r1 \in Rws : pb = [r1 |-> r1]
        /\ order = <<>> /\ ch = <<>> /\ fin = FALSE
Pick == /\ order = <<>>
        /\ \E r2 \in Rws, C \in Cs, o \in Orders, y2 \in {R(0), R(3)} :
             /\ pb' = Mk(pb.r1, r2, C, << <<R(2)>>, <<y2>> >>)
             /\ order' = o
        /\ UNCHANGED <<ch, fin>>
Go == /\ order # <<>> /\ Len(ch) < MaxEpochs
      /\ \E n \in 1..2, me \in {"mud", "map"} :
            /\ Len(ch) + n <= MaxEpochs
            /\ fin' = (me = "mud" /\ (ch = <<>> \/ fin))     \* only data-consistent steps so far
            /\ ch' = TLCEval(Solve(pb, order, n, me, ch))
      /\ UNCHANGED <<pb, order>>
Next == Pick \/ Go
Run == order # <<>> /\ ch # <<>>
Ok(v) == ~MatOvf(v)
(* bookkeeping *)
Shape == Run => \A e \in 1..Len(ch) : /\ Len(ch[e]) = Len(order) + 1
                                      /\ ch[e][1] = IF e = 1 THEN pb.m ELSE ch[e - 1][Len(ch[e - 1])]
Counts == Run => Len(Steps(ch)) = Len(ch) * Len(order)
(* one long call is several short ones *)
Composes == Run /\ fin => ch = Solve(pb, order, Len(ch), "mud", <<>>)
(* every data-consistent step satisfies its own row *)
OwnRow == Run /\ fin => \A e \in 1..Len(ch) : \A k \in 1..Len(order) :
    LET x == ch[e][k + 1]  i == order[k]
    IN Ok(x) => MAdd(MMul(RowM(pb.A, i), x), RowM(pb.b, i)) = RowM(pb.y, i)
(* Fejer: never farther, in the inverse covariance norm, from a point satisfying all rows *)
Sols == IF FullRow(pb.A) THEN {Mud(pb.A, pb.b, pb.y, pb.m, pb.C)} ELSE {}
Closer == Run /\ fin => \A z \in Sols : \A e \in 1..Len(ch) : \A k \in 1..Len(order) :
    LET d0 == RegTerm(z, pb.C, ch[e][k])  d1 == RegTerm(z, pb.C, ch[e][k + 1])
    IN ~IsOvf(d0) /\ ~IsOvf(d1) => Le(d1, d0)
(* once all rows hold nothing moves *)
Fixed == Run /\ fin => \A z \in Sols : Ok(z) => \A i \in {1, 2} : One1(pb, i, z, "mud") = z
(* a single row (or orthogonal rows) is solved in one visit *)
Idem == Run /\ fin => \A e \in 1..Len(ch) : \A k \in 1..Len(order) :
    Ok(ch[e][k + 1]) => One1(pb, order[k], ch[e][k + 1], "mud") = ch[e][k + 1]
=============================================================================
