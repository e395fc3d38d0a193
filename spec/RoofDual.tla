------------------------------ MODULE RoofDual ------------------------------
(* Quadratic pseudo-boolean optimisation: the half-integral relaxation of a *)
(* binary model of order at most two.  y[v] is twice the label of v: 0, 1   *)
(* (undecided) or 2.  All values are doubled.                               *)
EXTENDS ModelBase
Half == {0, 1, 2}
Relaxed(s, t, y) ==
  LET at(x) == t[Rank(s, x) + 1] IN
  CASE Len(y) = 0 -> 2 * t[1]
    [] Len(y) = 1 -> IF y[1] = 1 THEN t[1] + t[2] ELSE 2 * at(<<y[1] \div 2>>)
    [] OTHER -> IF y[1] # 1 /\ y[2] # 1 THEN 2 * at(<<y[1] \div 2, y[2] \div 2>>)
                ELSE IF y[1] # 1 THEN at(<<y[1] \div 2, 0>>) + at(<<y[1] \div 2, 1>>)
                ELSE IF y[2] # 1 THEN at(<<0, y[2] \div 2>>) + at(<<1, y[2] \div 2>>)
                ELSE Min2(at(<<0, 0>>) + at(<<1, 1>>), at(<<0, 1>>) + at(<<1, 0>>))
Relax(y) == SumSeq([i \in 1 .. Len(fa) |-> Relaxed(fa[i].s, fa[i].t, Sub(y, fa[i].v))])
RelaxMin == LET s == [i \in 1 .. NV |-> 3] IN MinSeq([r \in 1 .. Size(s) |-> Relax(Unrank(s, r - 1))])
PairSubmodular(f) == Len(f.v) < 2 \/ f.t[1] + f.t[4] <= f.t[2] + f.t[3]
Submodular == \A i \in 1 .. Len(fa) : PairSubmodular(fa[i])
Agrees(x, y) == \A i \in 1 .. NV : y[i] = 1 \/ 2 * x[i] = y[i]
Persistent(y) == \E r \in 1 .. Len(tab) : tab[r] = MinSeq(tab) /\ Agrees(Unrank(sp, r - 1), y)
Accepted == (\A i \in 1 .. NV : sp[i] = 2) /\ (\A i \in 1 .. Len(fa) : Len(fa[i].v) <= 2)
=============================================================================
