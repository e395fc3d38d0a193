--------------------------- MODULE FunctionProps ---------------------------
(* What the derived properties of a function mean, in terms of its shape s  *)
(* and value table t alone.                                                 *)
EXTENDS OGBase
At(s, t, x) == t[Rank(s, x) + 1]
ValSet(t) == { t[i] : i \in 1 .. Len(t) }
Labs(s) == { Unrank(s, r) : r \in 0 .. (Size(s) - 1) }
\* two values: one where all labels agree, one everywhere else
PottsT(s, t) == \A x \in Labs(s), y \in Labs(s) : AllEqual(x) = AllEqual(y) => At(s, t, x) = At(s, t, y)
\* the value depends only on which labels agree
GPottsT(s, t) ==
  LET g == [r \in 1 .. Size(s) |-> PartitionNumber(Unrank(s, r - 1))]
  IN \A i \in 1 .. Size(s), j \in 1 .. Size(s) : g[i] = g[j] => t[i] = t[j]
SubmodularT(s, t) == At(s, t, <<0, 0>>) + At(s, t, <<1, 1>>) <= At(s, t, <<1, 0>>) + At(s, t, <<0, 1>>)
Dist(p, x) == LET d == Abs(x[1] - x[2]) IN IF p = 1 THEN d ELSE d * d
DiffT(p, s, t) == \E w \in ValSet(t) : \A x \in Labs(s) : At(s, t, x) = w * Dist(p, x)
Trunc(w, c, d) == IF w < 0 THEN Max2(w * d, c) ELSE Min2(w * d, c)
TruncDiffT(p, s, t) ==
  \E w \in ValSet(t), c \in ValSet(t) : (w < 0 => c <= 0) /\ (w >= 0 => c >= 0) /\ \A x \in Labs(s) : At(s, t, x) = Trunc(w, c, Dist(p, x))
-----------------------------------------------------------------------------
(* Enumeration orders and aggregates.                                       *)
\* last coordinate fastest
Reverse2(x) == [i \in 1 .. Len(x) |-> x[Len(x) + 1 - i]]
Switched(s, t) == LET rs == Reverse2(s) IN [r \in 1 .. Size(s) |-> At(s, t, Reverse2(Unrank(rs, r - 1)))]
BagOf(q) == [v \in ValSet(q) |-> Cardinality({ i \in 1 .. Len(q) : q[i] = v })]
=============================================================================
