------------------------------- MODULE MC_Rat -------------------------------
(* Self-check of the arithmetic the other modules rest on.                   *)
EXTENDS Mat, TLC
CONSTANT N
VARIABLE m
Small == {-N..N}
Ents == {<<n, 1>> : n \in -N..N}
Fracs == {Frac(n, d) : n \in -4..4, d \in {1, 2, 3}}
Init == \/ m \in [t : {"m22"}, A : [1..2 -> [1..2 -> Ents]]]
        \/ m \in [t : {"m23"}, A : [1..2 -> [1..3 -> {R(0), R(1), R(-1)}]]]
        \/ m \in [t : {"q"}, x : Fracs, y : Fracs, z : {Frac(n, 5) : n \in -3..3}]
Next == FALSE /\ m' = m
MP(A, P) ==
   /\ MMul(MMul(A, P), A) = A
   /\ MMul(MMul(P, A), P) = P
   /\ IsSym(MMul(A, P)) /\ IsSym(MMul(P, A))
Inv2 == m.t \in {"m22"} =>
   LET I == MInv(m.A) IN
   /\ (I # <<>>) => MMul(m.A, I) = Eye(2) /\ MMul(I, m.A) = Eye(2)
   /\ (I = <<>>) <=> Sub(Mul(m.A[1][1], m.A[2][2]), Mul(m.A[1][2], m.A[2][1])) = Zero
   /\ (I = <<>>) <=> Rank(m.A) < 2
PinvInv == m.t \in {"m22", "m23"} => MP(m.A, Pinv(m.A))
Field == m.t = "q" =>
   /\ Add(m.x, m.y) = Add(m.y, m.x)
   /\ Add(Add(m.x, m.y), m.z) = Add(m.x, Add(m.y, m.z))
   /\ Mul(m.x, Add(m.y, m.z)) = Add(Mul(m.x, m.y), Mul(m.x, m.z))
   /\ (m.y # Zero) => Mul(Div(m.x, m.y), m.y) = m.x
   /\ Cmp(m.x, m.y) = Sgn(Sub(m.x, m.y)[1])
=============================================================================
