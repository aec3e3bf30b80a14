------------------------------- MODULE MC_Wme -------------------------------
(* The transformed linear map is the weighted mean error of the linear       *)
(* predictions, for every small operator, data, noise levels and parameter.  *)
EXTENDS Wme, LinGauss
CONSTANTS Ns, Ds
VARIABLE p
E == {R(-1), R(0), R(2)}
S == {R(1), R(2), Frac(1, 2)}
Seqs(n, X) == {TLCEval(f) : f \in [1..n -> X]}
Init == \E n \in Ns, di \in Ds : \E d \in Seqs(n, E) :
           p = [k |-> 0, n |-> n, di |-> di, d |-> d]
Choose == /\ p.k = 0
          /\ \E rep \in BOOLEAN : \E op \in Seqs(IF rep THEN 1 ELSE p.n, Seqs(p.di, E)) :
             \E sdk \in {"one", "many"} : \E sd \in Seqs(IF sdk = "one" THEN 1 ELSE p.n, S) :
                /\ Accept(op, p.d, sdk, sd)
                /\ p' = TLCEval([k |-> 1, n |-> p.n, di |-> p.di, d |-> p.d, op |-> op, sdk |-> sdk, sd |-> sd,
                                 A |-> LinRawA(op, p.d, Levels(p.d, sdk, sd)),
                                 B |-> LinRawB(p.d, Levels(p.d, sdk, sd))])
Next == Choose
On == p.k = 1
Lv == Levels(p.d, p.sdk, p.sd)
Pred(x) == TLCEval([j \in 1..p.n |-> VDot(Row(p.op, j), x)])
Same == On => \A x \in Seqs(p.di, {R(-2), R(0), R(3)}) :
    Add(VDot(p.A, x), p.B) = WmeRaw(Pred(x), p.d, Lv)
(* repeating a row is the same as writing it out *)
Repeat == On => (Rows(p.op) = 1 => /\ LinRawA([j \in 1..p.n |-> p.op[1]], p.d, Lv) = p.A)
(* exact data give a zero map at the truth *)
ZeroAtTruth == On => \A x \in Seqs(p.di, {R(0), R(3)}) :
    LET d == Pred(x) IN Add(VDot(LinRawA(p.op, d, Lv), x), LinRawB(d, Lv)) = Zero
(* order of the data does not matter *)
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Order == On => /\ LinRawA(IF Rows(p.op) = 1 THEN p.op ELSE Rev(p.op), Rev(p.d), Rev(Lv)) = p.A
               /\ LinRawB(Rev(p.d), Rev(Lv)) = p.B
(* doubling the noise level halves the map *)
Scaling == On => LET L2 == [j \in 1..p.n |-> Mul(R(2), Lv[j])]
                 IN /\ LinRawB(p.d, L2) = Mul(Frac(1, 2), p.B)
                    /\ LinRawA(p.op, p.d, L2) = [k \in 1..p.di |-> Mul(Frac(1, 2), p.A[k])]
(* scaling rows does not change a full-rank data-consistent solution: the factor 1/sqrt(N) is immaterial there *)
ScaleRow == On => (p.A # [k \in 1..p.di |-> Zero] =>
    LET m == ColZero(p.di)  y == << <<Zero>> >>  C == Eye(p.di)
    IN Mud(<<p.A>>, << <<p.B>> >>, y, m, C) =
       Mud(MScale(R(3), <<p.A>>), << <<Mul(R(3), p.B)>> >>, y, m, C))
VarOK == LET v == Var(p.d) IN Le(Zero, v) /\ (v = Zero <=> \A j \in 1..p.n : p.d[j] = p.d[1])
=============================================================================
