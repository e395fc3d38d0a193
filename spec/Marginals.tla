------------------------------ MODULE Marginals -----------------------------
(* Marginals of acyclic models: the table over a set of variables obtained  *)
(* by accumulating the model's value table over all other variables, with   *)
(* summation (probabilities) or optimisation (max-/min-marginals).          *)
EXTENDS ModelBase
MSum == SumSeq(tab)
\* the table over vars (ascending), in table order; one pass over the model table
MShape(vars) == [i \in 1 .. Len(vars) |-> sp[vars[i] + 1]]
MargTable(vars, kind) ==
  LET s == MShape(vars)
      init == [k \in 1 .. Size(s) |-> IF kind = "sum" THEN 0 ELSE IF kind = "min" THEN POSINF ELSE NEGINF]
      upd(acc, r) == LET k == Rank(s, Sub(Unrank(sp, r - 1), vars)) + 1
                         o == acc[k] v == tab[r]
                     IN [acc EXCEPT ![k] = IF kind = "sum" THEN o + v ELSE IF kind = "min" THEN Min2(o, v) ELSE Max2(o, v)]
  IN FoldLeft(upd, init, [r \in 1 .. Len(tab) |-> r])
\* reported numbers are scaled by 10^4
Close(t, w) == Abs(t - w) <= 1
\* normalised distribution: t / 10^4 = w / Z
SumOK(t, w, z) == Abs(t * z - 10000 * w) <= z
\* optimising accumulation, additive model: reported values differ from the
\* exact ones by one constant per table
ShiftOK(t, w) == \A i \in 1 .. Len(t) : Close(t[i] - t[1], 10000 * (w[i] - w[1]))
\* multiplicative model, normalised by the optimum
RatioOK(t, w, o) == \A i \in 1 .. Len(t) : Abs(t[i] * o - 10000 * w[i]) <= o
\* any normalisation: same order of labels
OrderOK(t, w) == \A i, j \in 1 .. Len(t) : (w[i] < w[j]) => t[i] < t[j]
=============================================================================
