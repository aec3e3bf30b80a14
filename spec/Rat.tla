--------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic for specifications checked with TLC.            *)
(* A rational is <<n, d>>, d > 0, gcd(n, d) = 1.  Special values:            *)
(*   NaN = <<0,0>>, Inf = <<1,0>>, NegInf = <<-1,0>>                          *)
(*   Bad = <<2,0>>  an observed number that is no small rational             *)
(*   Ovf = <<0,-1>> the exact value does not fit TLC's 32-bit integers: it   *)
(*         propagates, so a verdict can say "not decided" instead of erring  *)
EXTENDS Integers, Sequences, TLC

NaN == <<0, 0>>
Inf == <<1, 0>>
NegInf == <<-1, 0>>
Bad == <<2, 0>>
Ovf == <<0, -1>>

MaxInt == 2147483647
RAbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)      \* a, b >= 0

MulOK(a, b) == \/ a = 0 \/ b = 0 \/ RAbsI(a) <= MaxInt \div RAbsI(b)
AddOK(a, b) == IF a >= 0 THEN b <= MaxInt - a ELSE b >= -MaxInt - a

Fin(x) == x[2] > 0
IsOvf(x) == x[2] < 0
R(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>

Norm(n, d) ==  \* d > 0
    IF n = 0 THEN Zero
    ELSE IF d = 1 THEN <<n, 1>>
    ELSE LET g == Gcd(RAbsI(n), d) IN <<n \div g, d \div g>>

Frac(n, d) == IF d > 0 THEN Norm(n, d) ELSE Norm(-n, -d)

Neg(x) == IF IsOvf(x) THEN Ovf ELSE <<-x[1], x[2]>>
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0

Mul(x, y) ==
    IF IsOvf(x) \/ IsOvf(y) THEN Ovf
    ELSE IF x[2] = 0 \/ y[2] = 0
         THEN IF x = NaN \/ y = NaN THEN NaN
              ELSE IF x[1] = 0 \/ y[1] = 0 THEN NaN
              ELSE <<Sgn(x[1]) * Sgn(y[1]), 0>>
    ELSE IF x[1] = 0 \/ y[1] = 0 THEN Zero
    ELSE IF x[2] = 1 /\ y[2] = 1
         THEN IF MulOK(x[1], y[1]) THEN <<x[1] * y[1], 1>> ELSE Ovf
    ELSE LET g1 == Gcd(RAbsI(x[1]), y[2])
             g2 == Gcd(RAbsI(y[1]), x[2])
             a == x[1] \div g1   b == y[1] \div g2
             c == x[2] \div g2   d == y[2] \div g1
         IN IF MulOK(a, b) /\ MulOK(c, d) THEN <<a * b, c * d>> ELSE Ovf

Inv(x) ==
    IF IsOvf(x) THEN Ovf
    ELSE IF x[2] = 0 THEN (IF x[1] = 0 THEN NaN ELSE Zero)
    ELSE IF x[1] = 0 THEN Inf
    ELSE IF x[1] > 0 THEN <<x[2], x[1]>> ELSE <<-x[2], -x[1]>>

(* IEEE: 0/0 is NaN, and Mul(Zero, Inf) is NaN *)
Div(x, y) == Mul(x, Inv(y))

Add(x, y) ==
    IF IsOvf(x) \/ IsOvf(y) THEN Ovf
    ELSE IF x[2] = 0 \/ y[2] = 0
         THEN IF x = NaN \/ y = NaN THEN NaN
              ELSE IF x[2] = 0 /\ y[2] = 0 THEN (IF x = y THEN x ELSE NaN)
              ELSE IF x[2] = 0 THEN x ELSE y
    ELSE IF x[1] = 0 THEN y
    ELSE IF y[1] = 0 THEN x
    ELSE IF x[2] = y[2]
         THEN IF AddOK(x[1], y[1]) THEN Norm(x[1] + y[1], x[2]) ELSE Ovf
    ELSE LET g == Gcd(x[2], y[2])
             p == y[2] \div g    q == x[2] \div g
         IN IF MulOK(x[1], p) /\ MulOK(y[1], q) /\ MulOK(x[2], p)
            THEN LET u == x[1] * p   v == y[1] * q
                 IN IF AddOK(u, v) THEN Norm(u + v, x[2] * p) ELSE Ovf
            ELSE Ovf
Sub(x, y) == Add(x, Neg(y))

RAbs(x) == IF x[1] < 0 THEN Neg(x) ELSE x

(* Three-way comparison of finite rationals without 64-bit products:         *)
(* compare integer parts, then recurse on reciprocals of the fractions.      *)
RECURSIVE CmpF(_, _, _, _)
CmpF(a, b, c, d) ==  \* sign of a/b - c/d with b, d > 0
    LET q1 == a \div b   q2 == c \div d
    IN IF q1 # q2 THEN (IF q1 < q2 THEN -1 ELSE 1)
       ELSE LET r1 == a - q1 * b    r2 == c - q2 * d
            IN IF r1 = 0 /\ r2 = 0 THEN 0
               ELSE IF r1 = 0 THEN -1
               ELSE IF r2 = 0 THEN 1
               ELSE CmpF(d, r2, b, r1)   \* r1/b ? r2/d  <=>  d/r2 ? b/r1
Cmp(x, y) ==
    IF x = y THEN 0
    ELSE IF x = Inf \/ y = NegInf THEN 1
    ELSE IF x = NegInf \/ y = Inf THEN -1
    ELSE CmpF(x[1], x[2], y[1], y[2])
Lt(x, y) == Cmp(x, y) < 0
Le(x, y) == Cmp(x, y) <= 0
RMax(x, y) == IF Lt(x, y) THEN y ELSE x
RMin(x, y) == IF Lt(y, x) THEN y ELSE x

(* ------------------------------- folds ---------------------------------- *)
RECURSIVE SumF(_, _, _)
SumF(f, i, n) == IF i > n THEN Zero
                 ELSE IF i = n THEN f[n]
                 ELSE Add(f[i], SumF(f, i + 1, n))
SumSeq(s) == LET t == TLCEval(s) IN SumF(t, 1, Len(t))
RECURSIVE ProdF(_, _, _)
ProdF(f, i, n) == IF i > n THEN One
                  ELSE IF i = n THEN f[n]
                  ELSE Mul(f[i], ProdF(f, i + 1, n))
ProdSeq(s) == LET t == TLCEval(s) IN ProdF(t, 1, Len(t))
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN One ELSE Mul(x, RPow(x, n - 1))

(* Integer square root by bisection; rational square root, Ovf when irrational *)
RECURSIVE ISq(_, _, _)
ISq(n, lo, hi) == \* lo^2 <= n < (hi)^2
    IF hi - lo <= 1 THEN lo
    ELSE LET m == (lo + hi) \div 2
         IN IF m <= n \div m THEN ISq(n, m, hi) ELSE ISq(n, lo, m)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISq(n, 1, 46341)
RSqrt(x) == IF ~Fin(x) THEN x
            ELSE IF x[1] < 0 THEN NaN
            ELSE LET a == ISqrt(x[1])  b == ISqrt(x[2])
                 IN IF a * a = x[1] /\ b * b = x[2] THEN <<a, b>> ELSE Ovf

AnyOvf(s) == \E i \in 1..Len(s) : IsOvf(s[i])

(* First index at which a non-empty sequence of finite rationals is largest / smallest *)
RECURSIVE ArgMaxR(_, _, _)
ArgMaxR(s, i, best) ==
    IF i > Len(s) THEN best
    ELSE ArgMaxR(s, i + 1, IF Lt(s[best], s[i]) THEN i ELSE best)
ArgMax(s) == ArgMaxR(s, 2, 1)
RECURSIVE ArgMinR(_, _, _)
ArgMinR(s, i, best) ==
    IF i > Len(s) THEN best
    ELSE ArgMinR(s, i + 1, IF Lt(s[i], s[best]) THEN i ELSE best)
ArgMin(s) == ArgMinR(s, 2, 1)
MaxSeq(s) == s[ArgMax(s)]
MinSeq(s) == s[ArgMin(s)]
=============================================================================
