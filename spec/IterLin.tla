------------------------------- MODULE IterLin -------------------------------
(* Row-by-row (iterative) solution of affine Gaussian problems as a state    *)
(* machine: chains is the sequence of recorded epochs; every epoch lists its *)
(* start followed by one point per row visited.                              *)
EXTENDS LinGauss

RowM(M, i) == << M[i] >>
(* exact solution of the problem made of row i alone, started at x *)
One1(pb, i, x, method) ==
    LET A == RowM(pb.A, i)  b == RowM(pb.b, i)  y == RowM(pb.y, i)  co == << << pb.Co[i][i] >> >>
    IN CASE method = "mud" -> Mud(A, b, y, x, pb.C)
         [] method = "map" -> Map(A, b, y, x, pb.C, co)
         [] method = "ls" -> Ls(A, b, y)
         [] method = "mud_alt" -> MudAlt(A, b, y, x, pb.C, co)
RECURSIVE WalkR(_, _, _, _, _)
WalkR(pb, order, k, acc, method) ==
    IF k > Len(order) THEN acc
    ELSE WalkR(pb, order, k + 1,
               TLCEval(Append(acc, One1(pb, order[k], acc[Len(acc)], method))), method)
Epoch(pb, order, x, method) == WalkR(pb, order, 1, <<x>>, method)
Last(chains, m) == IF chains = <<>> THEN m ELSE LET ch == chains[Len(chains)] IN ch[Len(ch)]
RECURSIVE SolveR(_, _, _, _, _)
SolveR(pb, order, n, method, chains) ==
    IF n = 0 THEN chains
    ELSE SolveR(pb, order, n - 1, method,
                TLCEval(Append(chains, Epoch(pb, order, Last(chains, pb.m), method))))
Solve(pb, order, n, method, chains) == SolveR(pb, order, n, method, chains)

(* the points after each step, in order *)
RECURSIVE StepsR(_, _)
StepsR(chains, k) == IF k > Len(chains) THEN <<>> ELSE Tail(chains[k]) \o StepsR(chains, k + 1)
Steps(chains) == StepsR(chains, 1)
Sq(v) == SumSeq([i \in 1..Len(v) |-> Mul(v[i][1], v[i][1])])
(* squared distances of the steps to a reference column *)
Errors2(chains, ref) == LET s == Steps(chains) IN TLCEval([k \in 1..Len(s) |-> Sq(MSub(s[k], ref))])
RECURSIVE ConcatR(_, _)
ConcatR(chains, k) == IF k > Len(chains) THEN <<>> ELSE chains[k] \o ConcatR(chains, k + 1)
=============================================================================
