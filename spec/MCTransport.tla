---------------------------- MODULE MCTransport -----------------------------
(* Every feasible plan of every small problem: it has no improving residual *)
(* cycle exactly if its cost is the minimum (maximum) of all plans, and an  *)
(* improving pivot exists otherwise (plans are walked by unit pivots).      *)
EXTENDS Transport
CONSTANTS MASS, COSTS
CostsDef == {-1, 2}
CostsBig == {-1, 0, 2}
VARIABLES p, a, b
vars == <<prob, bnd, p, a, b>>
Marg(n) == { m \in [1 .. n -> 0 .. MASS] : SumSeq(m) = MASS }
\* the north-west corner start of the code
RECURSIVE Corner(_, _, _, _, _)
Corner(q, xs, i, j, r) ==
  LET x == r[1] y == r[2] IN
  IF i > Len(x) \/ j > Len(y) THEN q
  ELSE LET f == Min2(x[i], y[j]) z == [q EXCEPT ![(i - 1) + xs * (j - 1) + 1] = f] s == <<[x EXCEPT ![i] = @ - f], [y EXCEPT ![j] = @ - f]>>
       IN IF y[j] >= x[i] THEN Corner(z, xs, i + 1, j, s) ELSE Corner(z, xs, i, j + 1, s)
MInit == /\ bnd = <<>>
         /\ \E xs, ys \in 2 .. 3 : (xs + ys <= 5) /\ \E c \in [1 .. xs * ys -> COSTS], m \in Marg(xs), n \in Marg(ys), sg \in {1, -1} :
              /\ prob = [c |-> c, xs |-> xs, ys |-> ys, sign |-> sg] /\ a = m /\ b = n
              /\ p = Corner([i \in 1 .. xs * ys |-> 0], xs, 1, 1, <<m, n>>)
\* move one unit around a 2x2 cycle
MNext == /\ UNCHANGED <<prob, bnd, a, b>>
         /\ \E x, u \in 0 .. (prob.xs - 1), y, v \in 0 .. (prob.ys - 1) : x # u /\ y # v /\
              LET I(s, t) == s + prob.xs * t + 1 IN p[I(x, y)] > 0 /\ p[I(u, v)] > 0 /\
              p' = [p EXCEPT ![I(x, y)] = @ - 1, ![I(u, v)] = @ - 1, ![I(u, y)] = @ + 1, ![I(x, v)] = @ + 1]
StaysFeasible == Feasible(p, prob.xs, prob.ys, a, b)
Certified == OptimalPlan(prob.c, p, prob.xs, prob.ys, prob.sign) = (CostOf(prob.c, p) = Best(prob.c, prob.xs, a, b, prob.sign))
=============================================================================
