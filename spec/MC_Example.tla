------------------------------ MODULE MC_Example ------------------------------
(* The relations the generators are judged by, over small instances: powers  *)
(* are monotone in the documented way, a noiseless map is linear, and the    *)
(* rotation relations hold for true rotations (rational half turns) only.    *)
EXTENDS Example
CONSTANT B
Q == {<<n, d>> \in ((-B)..B) \X (1..2) : Norm(n, d) = <<n, d>>}
VARIABLE s
Init == s \in [x : Q, y : Q, p : 1..5]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
OddPowersIncrease == (s.p % 2 = 1 /\ Lt(s.x, s.y)) => Lt(PolyQ(<<s.x>>, s.p)[1], PolyQ(<<s.y>>, s.p)[1])
EvenPowersForgetSigns == s.p % 2 = 0 => PolyQ(<<Neg(s.x)>>, s.p) = PolyQ(<<s.x>>, s.p)
Linear == LET M == <<<<s.x, s.y>>, <<s.y, One>>>>
          IN \A k \in 1..2 : LinearTrue(M, <<R(k), s.y>>, 2)
                = [i \in 1..2 |-> Add(LinearTrue(M, <<R(k), Zero>>, 2)[i], LinearTrue(M, <<Zero, s.y>>, 2)[i])]
Repeats == LinearTrue(<<<<s.x, s.y>>>>, <<One, One>>, 3) = [i \in 1..3 |-> Add(s.x, s.y)]
Rot3 == <<<<0, 1000>>, <<1000, 0>>, <<0, -1000>>>>
Rot4 == <<<<0, 1000>>, <<866, 500>>, <<866, -500>>, <<0, -1000>>>>
RotationsAccepted == RotationRows(Rot3, 3, 6) /\ RotationRows(Rot4, 4, 6)
OthersRejected == /\ ~RotationRows(<<<<1000, 0>>, <<0, 1000>>, <<-1000, 0>>>>, 3, 6)
                  /\ ~RotationRows(<<<<0, 1000>>, <<500, 866>>, <<0, -1000>>>>, 3, 6)
                  /\ ~RotationRows(<<<<0, 1000>>, <<-1000, 0>>, <<0, -1000>>>>, 3, 6)
=============================================================================
