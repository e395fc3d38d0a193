--------------------------- MODULE FactorAlgebra ---------------------------
(* Factors in table form and the pointwise algebra on them.                 *)
(* A factor is [v |-> ascending variables, s |-> shape, t |-> table];       *)
(* a scalar is the factor without variables.                                *)
EXTENDS OGBase
VARIABLE slot
NoFac == [v |-> <<-1>>, s |-> <<>>, t |-> <<>>]
Scalar(c) == [v |-> <<>>, s |-> <<>>, t |-> <<c>>]
WellFormed(f) == Len(f.v) = Len(f.s) /\ IsStrictlyAscending(f.v) /\ Len(f.t) = Size(f.s)
\* position of variable a in factor f
Pos(f, a) == CHOOSE i \in 1 .. Len(f.v) : f.v[i] = a
Has(f, a) == \E i \in 1 .. Len(f.v) : f.v[i] = a
\* the value of f at a labeling x of the ascending variables vs, which include f's
Val(f, vs, x) == f.t[Rank(f.s, [i \in 1 .. Len(f.v) |-> x[CHOOSE k \in 1 .. Len(vs) : vs[k] = f.v[i]]]) + 1]
ShapeOver(f, g, vs) == [k \in 1 .. Len(vs) |-> IF Has(f, vs[k]) THEN f.s[Pos(f, vs[k])] ELSE g.s[Pos(g, vs[k])]]
ApplyBin(o, a, b) ==
  CASE o = "plus" -> a + b [] o = "minus" -> a - b [] o = "times" -> a * b [] o = "divides" -> (IF b = 1 THEN a ELSE IF b = -1 THEN -a ELSE IF b > 0 THEN a \div b ELSE (-a) \div (-b))
    [] o = "or" -> B2I(a # 0 \/ b # 0) [] o = "and" -> B2I(a # 0 /\ b # 0)
    [] o = "max" -> Max2(a, b) [] o = "lin" -> a - 2 * b
ApplyUn(o, a) == CASE o = "neg" -> -a [] o = "dbl" -> 2 * a [] o = "inc" -> a + 1 [] o = "sqr" -> a * a
\* pointwise combination over the union of the variables
Combine2(o, f, g) ==
  LET vs == Sorted(SeqSet(f.v) \cup SeqSet(g.v)) s == ShapeOver(f, g, vs)
  IN [v |-> vs, s |-> s, t |-> [r \in 1 .. Size(s) |-> LET x == Unrank(s, r - 1) IN ApplyBin(o, Val(f, vs, x), Val(g, vs, x))]]
Map1(o, f) == [f EXCEPT !.t = [r \in 1 .. Len(f.t) |-> ApplyUn(o, f.t[r])]]
Fold(acc, q) == CASE acc = "min" -> MinSeq(q) [] acc = "max" -> MaxSeq(q) [] acc = "sum" -> SumSeq(q) [] acc = "prod" -> ProdSeq(q)
Keep(f, W) == SelectSeq(f.v, LAMBDA a : a \notin W)
Gone(f, W) == SelectSeq(f.v, LAMBDA a : a \in W)
ShapeOf(f, vs) == [k \in 1 .. Len(vs) |-> f.s[Pos(f, vs[k])]]
\* accumulate over the variables in W
Accumulate(acc, f, W) ==
  LET kv == Keep(f, W) gv == Gone(f, W) ks == ShapeOf(f, kv) gs == ShapeOf(f, gv)
      join(x, y) == [k \in 1 .. Len(f.v) |-> IF f.v[k] \in W THEN y[CHOOSE i \in 1 .. Len(gv) : gv[i] = f.v[k]] ELSE x[CHOOSE i \in 1 .. Len(kv) : kv[i] = f.v[k]]]
  IN [v |-> kv, s |-> ks, t |-> [r \in 1 .. Size(ks) |-> LET x == Unrank(ks, r - 1) IN Fold(acc, [q \in 1 .. Size(gs) |-> f.t[Rank(f.s, join(x, Unrank(gs, q - 1))) + 1]])]]
\* fix the variables vs[i] to labels ls[i]
Fix(f, vs, ls) ==
  LET W == SeqSet(vs) kv == Keep(f, W) ks == ShapeOf(f, kv)
      full(x) == [k \in 1 .. Len(f.v) |-> IF f.v[k] \in W THEN ls[CHOOSE i \in 1 .. Len(vs) : vs[i] = f.v[k]] ELSE x[CHOOSE i \in 1 .. Len(kv) : kv[i] = f.v[k]]]
  IN [v |-> kv, s |-> ks, t |-> [r \in 1 .. Size(ks) |-> f.t[Rank(f.s, full(Unrank(ks, r - 1))) + 1]]]
Put(i, f) == slot' = [slot EXCEPT ![i] = f]
=============================================================================
