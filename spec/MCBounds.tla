------------------------------ MODULE MCBounds ------------------------------
(* Design of the dual solvers, explored exhaustively: a model over two      *)
(* binary variables shared by two sub-problems, multipliers that move value *)
(* between them.  A subgradient step moves weight from the label one        *)
(* sub-problem picked to the label the other picked; an averaging step      *)
(* (tree-reweighted message passing) makes the min-marginals of a variable  *)
(* equal.  Whatever steps are made, the bound never passes the optimum, an  *)
(* averaging step never loses any of it, and a labeling on which the        *)
(* sub-problems agree is optimal and as good as the bound.  All values are  *)
(* even so that averages are integers.                                      *)
EXTENDS Integers, FiniteSets
CONSTANTS Vals, MaxDual
VARIABLES t1, t2, lam, best, dual, how
vars == <<t1, t2, lam, best, dual, how>>
X == (0 .. 1) \X (0 .. 1)
MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
Master(x) == t1[x] + t2[x]
Optimum == MinOf({ Master(x) : x \in X })
L(l, x) == l[1][x[1]] + l[2][x[2]]
E1(l, x) == t1[x] + L(l, x)
E2(l, x) == t2[x] - L(l, x)
Bound(l) == MinOf({ E1(l, x) : x \in X }) + MinOf({ E2(l, x) : x \in X })
Arg1 == { x \in X : \A y \in X : E1(lam, x) <= E1(lam, y) }
Arg2 == { x \in X : \A y \in X : E2(lam, x) <= E2(lam, y) }
Zero == [v \in 1 .. 2 |-> [k \in 0 .. 1 |-> 0]]
Note(l, h) == /\ lam' = l /\ how' = h /\ UNCHANGED <<t1, t2>>
              /\ dual' = IF Bound(l) > dual THEN Bound(l) ELSE dual
Primal(x) == best' = IF Master(x) < best THEN Master(x) ELSE best
Init == /\ t1 \in [X -> Vals] /\ t2 \in [X -> Vals] /\ lam = Zero /\ how = "start"
        /\ dual = Bound(Zero) /\ best \in { Master(x) : x \in X }
Ind(x, v, k) == IF x[v] = k THEN 1 ELSE 0
SubGradient == \E x \in Arg1, y \in Arg2, s \in {2, 4} :
  LET l == [v \in 1 .. 2 |-> [k \in 0 .. 1 |-> lam[v][k] + s * (Ind(x, v, k) - Ind(y, v, k))]]
  IN /\ \A v \in 1 .. 2, k \in 0 .. 1 : l[v][k] \in -MaxDual .. MaxDual
     /\ Note(l, "sub") /\ (Primal(x) \/ Primal(y))
MM1(v, k) == MinOf({ E1(lam, x) : x \in { z \in X : z[v] = k } })
MM2(v, k) == MinOf({ E2(lam, x) : x \in { z \in X : z[v] = k } })
Average == \E v \in 1 .. 2 :
  LET l == [lam EXCEPT ![v] = [k \in 0 .. 1 |-> lam[v][k] + ((MM2(v, k) - MM1(v, k)) \div 2)]]
  IN /\ \A k \in 0 .. 1 : (MM2(v, k) - MM1(v, k)) % 2 = 0 /\ l[v][k] \in -MaxDual .. MaxDual
     /\ Note(l, "avg") /\ \E x \in Arg1 : Primal(x)
Next == SubGradient \/ Average
Spec == Init /\ [][Next]_vars
Enclosed == Bound(lam) <= dual /\ dual <= Optimum /\ Optimum <= best
AgreeOptimal == \A x \in Arg1 \cap Arg2 : Master(x) = Optimum /\ Bound(lam) = Optimum
AverageGains == [][how' = "avg" => Bound(lam') >= Bound(lam)]_vars
NeverWorse == [][dual' >= dual /\ best' <= best]_vars
=============================================================================
