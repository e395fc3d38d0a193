-------------------------- MODULE Reparametrization --------------------------
(* Reparametrisation of a model whose variables have one unary factor each: *)
(* dual[i][k] holds one number per label of the k-th variable of factor i   *)
(* (of order two or more).  It is added to the factor and taken from the    *)
(* variable, so that no labeling changes its value.  Numbers are in         *)
(* thousandths.                                                             *)
EXTENDS ModelBase
VARIABLES dual
DS == 1000
Tol == 12
Large(i) == Len(fa[i].v) >= 2
NoDual(fs) == [i \in 1 .. Len(fs) |-> IF Len(fs[i].v) < 2 THEN <<>> ELSE [k \in 1 .. Len(fs[i].v) |-> [l \in 1 .. fs[i].s[k] |-> 0]]]
DualShape(d) == /\ Len(d) = Len(fa)
                /\ \A i \in 1 .. Len(fa) : Len(d[i]) = (IF Large(i) THEN Len(fa[i].v) ELSE 0) /\ \A k \in 1 .. Len(d[i]) : Len(d[i][k]) = fa[i].s[k]
OneUnaryEach == \A v \in Range0(NV) : Cardinality({ i \in 1 .. Len(fa) : fa[i].v = <<v>> }) = 1
PosIn(i, v) == CHOOSE k \in 1 .. Len(fa[i].v) : fa[i].v[k] = v
With(v) == { i \in 1 .. Len(fa) : v \in SeqSet(fa[i].v) }
VarTerm(d, i, v, l) == IF v \notin SeqSet(fa[i].v) THEN 0 ELSE IF Large(i) THEN -d[i][PosIn(i, v)][l + 1] ELSE DS * fa[i].t[l + 1]
VarValue(d, v, l) == SumSeq([i \in 1 .. Len(fa) |-> VarTerm(d, i, v, l)])
RepaValue(d, i, x) == IF Large(i) THEN DS * fa[i].t[Rank(fa[i].s, x) + 1] + SumSeq([k \in 1 .. Len(x) |-> d[i][k][x[k] + 1]])
                      ELSE VarValue(d, fa[i].v[1], x[1])
RepaTable(d, i) == [r \in 1 .. Size(fa[i].s) |-> RepaValue(d, i, Unrank(fa[i].s, r - 1))]
Tables(d) == [i \in 1 .. Len(fa) |-> RepaTable(d, i)]
SumAt(T, x) == SumSeq([i \in 1 .. Len(fa) |-> T[i][Rank(fa[i].s, Sub(x, fa[i].v)) + 1]])
Near(a, b) == Abs(a - b) <= Tol
Preserves(T) == \A r \in 1 .. Len(tab) : Near(SumAt(T, Unrank(sp, r - 1)), DS * tab[r])
\* what deciding every factor on its own would give
LocalBound(a, T) == SumSeq([i \in 1 .. Len(fa) |-> Best(a, T[i])])
AtOwnBest(a, T, i, y) == Near(T[i][Rank(fa[i].s, y) + 1], Best(a, T[i]))
\* labels x are locally best and agree with the best of every factor
Consistent(a, T, x) == \A i \in 1 .. Len(fa) : AtOwnBest(a, T, i, Sub(x, fa[i].v))
Flatten(d) == LET R[i \in 0 .. Len(d)] == IF i = 0 THEN <<>> ELSE R[i - 1] \o (LET Q[k \in 0 .. Len(d[i])] == IF k = 0 THEN <<>> ELSE Q[k - 1] \o d[i][k] IN Q[Len(d[i])]) IN R[Len(d)]
\* best value of factor i over labelings that give its k-th variable label l
MinMarginal(a, T, i, k, l) == Best(a, SetToSeq({ T[i][r] : r \in { q \in 1 .. Size(fa[i].s) : Unrank(fa[i].s, q - 1)[k] = l } }))
\* a variable hands everything to a factor; a factor hands its min-marginals to a variable
Pull(d, i, k) == [d EXCEPT ![i][k] = [l \in 1 .. Len(d[i][k]) |-> d[i][k][l] + VarValue(d, fa[i].v[k], l - 1)]]
Push(d, i, k, a) == LET T == Tables(d) IN [d EXCEPT ![i][k] = [l \in 1 .. Len(d[i][k]) |-> d[i][k][l] - MinMarginal(a, T, i, k, l - 1)]]
=============================================================================
