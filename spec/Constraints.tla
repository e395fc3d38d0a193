---------------------------- MODULE Constraints ----------------------------
(* Indicator variables, linear constraints over them, and the constraint    *)
(* and cost functions defined through them.                                 *)
(*   indicator  [o |-> "and" | "or" | "not", p |-> << <<var, label>>, ... >>]*)
(*   constraint [iv |-> <<indicator...>>, c |-> <<coefficient...>>, b, r]    *)
(*              r in "LE" (at most b), "EQ" (equal to b), "GE" (at least b)  *)
(* An indicator variable is 1 if all / some / none of its pairs match.      *)
EXTENDS OGBase

Match(q, x) == x[q[1] + 1] = q[2]
Holds(iv, x) ==
  CASE iv.o = "and" -> \A i \in 1 .. Len(iv.p) : Match(iv.p[i], x)
    [] iv.o = "or"  -> \E i \in 1 .. Len(iv.p) : Match(iv.p[i], x)
    [] iv.o = "not" -> \A i \in 1 .. Len(iv.p) : ~Match(iv.p[i], x)
B01(b) == IF b THEN 1 ELSE 0

\* the pairs of an indicator are kept in ascending order
PairLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Canon(iv) == [iv EXCEPT !.p = SortSeq(iv.p, PairLt)]
OpRank(o) == CASE o = "and" -> 0 [] o = "or" -> 1 [] o = "not" -> 2
\* order: operator, number of pairs, first differing pair (of canonical indicators)
IvLt(a, b) ==
  \/ OpRank(a.o) < OpRank(b.o)
  \/ a.o = b.o /\ Len(a.p) < Len(b.p)
  \/ a.o = b.o /\ Len(a.p) = Len(b.p)
     /\ \E i \in 1 .. Len(a.p) : PairLt(a.p[i], b.p[i]) /\ \A j \in 1 .. (i - 1) : a.p[j] = b.p[j]

\* amount by which a left-hand side v misses a bound b
Miss(r, v, b) == CASE r = "LE" -> Max2(v - b, 0) [] r = "GE" -> Max2(b - v, 0) [] r = "EQ" -> Abs(v - b)
Lhs(con, x) == SumSeq([i \in 1 .. Len(con.iv) |-> con.c[i] * B01(Holds(con.iv[i], x))])
Violation(con, x) == Miss(con.r, Lhs(con, x), con.b)
\* the same for values y given to the indicators (ord lists the indicators), in units of 1/scale
PosOf(ord, iv) == CHOOSE k \in 1 .. Len(ord) : ord[k] = iv
LhsRelaxed(con, ord, y) == SumSeq([i \in 1 .. Len(con.iv) |-> con.c[i] * y[PosOf(ord, con.iv[i])]])
ViolationRelaxed(con, ord, y, scale) == Miss(con.r, LhsRelaxed(con, ord, y), scale * con.b)

Used(x) == SeqSet(x)
\* functions; all have a shape s
Valid(f, x) ==
  CASE f.k = "order" -> f.ord[x[1] + 1] <= f.ord[x[2] + 1]
    [] f.k = "limit" -> Cardinality(Used(x)) <= f.most
    [] f.k = "linear" -> \A i \in 1 .. Len(f.cons) : Violation(f.cons[i], x) = 0
IsConstraint(f) == f.k \in {"order", "limit", "linear"}
Offset(f, i) == IF f.share THEN 0 ELSE SumSeq(SubSeq(f.s, 1, i - 1))
Value(f, x) ==
  CASE IsConstraint(f) -> IF Valid(f, x) THEN f.yes ELSE f.no
    [] f.k = "costs" -> FoldSet(LAMBDA l, acc : acc + f.costs[l + 1], 0, Used(x))
    [] f.k = "cost1" -> IF f.label \in Used(x) THEN f.cost ELSE 0
    [] f.k = "sum" -> f.lambda * Abs(SumSeq([i \in 1 .. Len(x) |-> f.co[Offset(f, i) + x[i] + 1]]) - f.bound)

\* constraints cons (with indicator order ord) describe a constraint function
Describes(cons, f) == \A r \in 1 .. Size(f.s) : LET x == Unrank(f.s, r - 1) IN
    Valid(f, x) <=> \A i \in 1 .. Len(cons) : Violation(cons[i], x) = 0
IndicatorsOf(cons) == UNION { SeqSet(cons[i].iv) : i \in 1 .. Len(cons) }

-----------------------------------------------------------------------------
(* Linear-programming transfer: slack variables are extra two-valued-or-more *)
(* quantities, written as indicators of variables beyond the function's own. *)
(* Given the labels, the least cost of non-negative slack values that        *)
(* satisfies the constraints is the value of the function.                   *)
LhsSlack(con, x, slack, z) ==
  SumSeq([i \in 1 .. Len(con.iv) |-> con.c[i] *
     (IF con.iv[i] \in SeqSet(slack) THEN z[PosOf(slack, con.iv[i])] ELSE B01(Holds(con.iv[i], x)))])
FeasibleSlacks(cons, slack, x, top) ==
  { z \in [1 .. Len(slack) -> 0 .. top] : \A i \in 1 .. Len(cons) : Miss(cons[i].r, LhsSlack(cons[i], x, slack, z), cons[i].b) = 0 }
CostOf(co, z) == SumSeq([j \in 1 .. Len(co) |-> co[j] * z[j]])
Least(cons, slack, co, x, top) == LET F == FeasibleSlacks(cons, slack, x, top) IN
  IF F = {} THEN POSINF ELSE Min({ CostOf(co, z) : z \in F })
=============================================================================
