------------------------------ MODULE Transport -----------------------------
(* Transportation problems with integer marginals: plans are tables over    *)
(* xs * ys with the first coordinate running fastest.  A primal bound of a  *)
(* model keeps marginals per variable and adds, over the factors, expected  *)
(* unary values and optimal transportation costs.                           *)
EXTENDS OGBase
At2(t, xs, x, y) == t[x + xs * y + 1]
Feasible(p, xs, ys, a, b) ==
  /\ Len(p) = xs * ys /\ \A i \in 1 .. Len(p) : p[i] >= 0
  /\ \A x \in 0 .. (xs - 1) : SumSeq([y \in 1 .. ys |-> At2(p, xs, x, y - 1)]) = a[x + 1]
  /\ \A y \in 0 .. (ys - 1) : SumSeq([x \in 1 .. xs |-> At2(p, xs, x - 1, y)]) = b[y + 1]
CostOf(c, p) == SumSeq([i \in 1 .. Len(c) |-> c[i] * p[i]])
\* optimality by duality: the residual graph has no improving cycle
BIG == 100000
Residual(c, p, xs, ys, sign) ==
  [u \in 1 .. (xs + ys) |-> [v \in 1 .. (xs + ys) |->
     IF u = v THEN 0
     ELSE IF u <= xs /\ v > xs THEN sign * At2(c, xs, u - 1, v - xs - 1)
     ELSE IF u > xs /\ v <= xs /\ At2(p, xs, v - 1, u - xs - 1) > 0 THEN - sign * At2(c, xs, v - 1, u - xs - 1)
     ELSE BIG]]
Relax(d, k) == [u \in DOMAIN d |-> [v \in DOMAIN d |-> LET s == d[u][k] + d[k][v] IN IF s < d[u][v] THEN s ELSE d[u][v]]]
Closure(d) == FoldLeft(LAMBDA e, k : Relax(e, k), d, [k \in 1 .. Len(d) |-> k])
OptimalPlan(c, p, xs, ys, sign) == LET d == Closure(Residual(c, p, xs, ys, sign)) IN \A u \in DOMAIN d : d[u][u] >= 0
\* ... and by definition, filling the table column by column
RECURSIVE Splits(_, _)
Splits(n, caps) == IF caps = <<>> THEN (IF n = 0 THEN {<<>>} ELSE {})
                   ELSE UNION { { <<k>> \o r : r \in Splits(n - k, Tail(caps)) } : k \in 0 .. Min2(n, Head(caps)) }
RECURSIVE BestFrom(_, _, _, _, _)
BestFrom(c, xs, a, b, sign) ==      \* b: remaining column masses, c: remaining costs
  IF b = <<>> THEN 0
  ELSE Min({ sign * CostOf(SubSeq(c, 1, xs), s) + BestFrom(SubSeq(c, xs + 1, Len(c)), xs, [i \in 1 .. xs |-> a[i] - s[i]], Tail(b), sign) : s \in Splits(Head(b), a) })
Best(c, xs, a, b, sign) == sign * BestFrom(c, xs, a, b, sign)
-----------------------------------------------------------------------------
VARIABLES prob,    \* the problem at hand: [c, xs, ys, sign]
          bnd      \* the bound: [sp, fa (tables), sign, n (total mass), mu (marginals per variable)]
SetMarginal(v, m) == bnd' = [bnd EXCEPT !.mu[v + 1] = m] /\ UNCHANGED prob
FacCost(f) == IF Len(f.v) = 1 THEN SumSeq([i \in 1 .. Len(f.t) |-> f.t[i] * bnd.mu[f.v[1] + 1][i]])
              ELSE Best(f.t, bnd.sp[f.v[1] + 1], bnd.mu[f.v[1] + 1], bnd.mu[f.v[2] + 1], bnd.sign)
Total == SumSeq([i \in 1 .. Len(bnd.fa) |-> FacCost(bnd.fa[i])])
VarCost(v) == SumSeq([i \in 1 .. Len(bnd.fa) |-> IF bnd.fa[i].v = <<v>> THEN FacCost(bnd.fa[i]) ELSE 0])
=============================================================================
