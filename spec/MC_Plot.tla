------------------------------- MODULE MC_Plot -------------------------------
(* Laws of what plots show, over all small grids, rows and canvases.         *)
EXTENDS Plot, FiniteSets
CONSTANTS MaxV, MaxM, Coef, MaxDraw
VARIABLES ph, v, D, m, j, row, ref, w, cv, hist
vars == <<ph, v, D, m, j, row, ref, w, cv, hist>>
CoefSet == {-4, -3, -1, 0, 1, 2, 3, 4, 6, 8}
R1(f) == [q \in DOMAIN f |-> R(f[q])]
Init == /\ ph = 0 /\ v = <<One, One>> /\ D = 1 /\ m = 2 /\ j = 1 /\ row = <<One, Zero>>
        /\ ref = <<Zero, Zero>> /\ w = One /\ cv = << {}, {} >> /\ hist = <<>>
Grid == ph = 0 /\ ph' = 1 /\ UNCHANGED <<row, ref, w, cv, hist>> /\
        \E dd \in 1..2, mm \in 2..MaxM : (dd = 2 => mm = 2) /\ D' = dd /\ m' = mm /\ j' \in 1..dd /\
           \E f \in [1..PowI(mm, dd) -> 0..MaxV] : (\E k \in DOMAIN f : f[k] > 0) /\ v' = R1(f)
(* rows whose norm is rational, and the zero row *)
Square(a, b) == \E r \in 0..10 : r * r = a * a + b * b
Line2 == ph = 0 /\ ph' = 2 /\ UNCHANGED <<v, D, m, j, cv, hist>> /\
        \E a, b \in Coef : Square(a, b) /\ row' = <<R(a), R(b)>> /\
           \E c, d \in {-1, 0, 2} : ref' = <<R(c), R(d)>> /\ w' \in {One, <<1, 2>>, R(3)}
(* a canvas of two axes; every draw puts one numbered item on the axes given or on new ones *)
DrawOne == ph \in {0, 3} /\ ph' = 3 /\ Len(hist) < MaxDraw /\ UNCHANGED <<v, D, m, j, row, ref, w>> /\
        \E t \in 0..Len(cv) : cv' = Draw(cv, t, {Len(hist) + 1}) /\ hist' = Append(hist, t)
Next == Grid \/ Line2 \/ DrawOne
Spec == Init /\ [][Next]_vars

Box == [i \in 1..D |-> <<Zero, R(m)>>]
Y == Unit(Marginal(v, D, m, j), One)
Area == ph = 1 => SumSeq(Y) = One /\ Len(Y) = m
Proportional == ph = 1 => \A a, b \in 1..m :
      Mul(Y[a], SumIf(v, Len(v), D, m, j, b)) = Mul(Y[b], SumIf(v, Len(v), D, m, j, a))
(* summing a marginal again gives the total mass, whichever axis was kept *)
Mass == ph = 1 => SumSeq(Marginal(v, D, m, j)) = SumSeq(v)
(* the two components of a two-dimensional table are exchanged by transposing it *)
Swap == (ph = 1 /\ D = 2) =>
      LET t == [k \in 1..(m * m) |-> v[((k - 1) % m) * m + ((k - 1) \div m) + 1]]
      IN Marginal(t, 2, m, 3 - j) = Marginal(v, 2, m, j)
(* a product of independent factors has its factors as marginals *)
Product == (ph = 1 /\ D = 2) =>
      LET a == <<v[1], v[2]>>  b == <<v[3], v[4]>>
          p == [k \in 1..4 |-> Mul(a[AxisIdx(2, 2, 1, k)], b[AxisIdx(2, 2, 2, k)])]
      IN (SumSeq(a) # Zero /\ SumSeq(b) # Zero) =>
            /\ Unit(Marginal(p, 2, 2, 1), One) = Unit(a, One)
            /\ Unit(Marginal(p, 2, 2, 2), One) = Unit(b, One)
(* the ends computed from the direction are a contour; the map is constant along it *)
Ends == ContourEnds(row, ref, w)
Contour == (ph = 2 /\ row # <<Zero, Zero>>) =>
      /\ IsContour(Ends, row, ref, w)
      /\ IsContour(<<Ends[2], Ends[1]>>, row, ref, w)
      /\ VDot(row, Ends[1]) = VDot(row, ref) /\ VDot(row, Ends[2]) = VDot(row, ref)
      /\ ~IsContour(<<Ends[1], Ends[1]>>, row, ref, w)
      /\ \A c \in {<<One, Zero>>, <<Zero, One>>} : VDot(row, c) # Zero =>
             ~IsContour(<<P2Sub(ref, <<Mul(w, c[1]), Mul(w, c[2])>>), <<Add(ref[1], Mul(w, c[1])), Add(ref[2], Mul(w, c[2]))>>>>, row, ref, w)
(* nothing drawn is ever lost, moved or drawn twice; new axes only when asked *)
Once == \A i \in 1..Len(hist) : Cardinality({a \in 1..Len(cv) : i \in cv[a]}) = 1
Where == \A i \in 1..Len(hist) : hist[i] # 0 => i \in cv[hist[i]]
Grown == Len(cv) = 2 + Cardinality({i \in 1..Len(hist) : hist[i] = 0})
Kept == [][\A a \in 1..Len(cv) : cv[a] \subseteq cv'[a]]_vars
=============================================================================
