----------------------------- MODULE MCWrappers -----------------------------
(* Design of the reducing solvers, explored exhaustively on small models:   *)
(* Kovtun's tests for Potts models, decompositions of multicut models, and  *)
(* the optimisation of some variables while the others stay.                *)
EXTENDS Wrappers
CONSTANTS Un, Wt, Cut
VARIABLES kind, left, x
vars == <<opr, sp, fa, tab, sol, kind, left, x>>
Edges == <<<<0, 1>>, <<1, 2>>, <<0, 2>>>>
Wts == { w - 1 : w \in Wt }        \* configuration files hold no negative numbers
Cuts == { w - 3 : w \in Cut }
PottsTab(w, L) == [r \in 1 .. L * L |-> LET y == Unrank(<<L, L>>, r - 1) IN IF y[1] = y[2] THEN 0 ELSE w]
Load(s, f) == /\ opr = "add" /\ sp = s /\ fa = f /\ tab = FullTable("add", s, f)
Init ==
  /\ sol = NoSolver
  /\ \/ /\ kind = "potts" /\ x = <<0, 0, 0>> /\ left = [i \in 1 .. 3 |-> <<0, 1, 2>>]
        /\ \E u \in [1 .. 3 -> [1 .. 3 -> Un]], w \in [1 .. 2 -> Wts] :
             Load(<<3, 3, 3>>, [i \in 1 .. 5 |-> IF i <= 3 THEN [v |-> <<i - 1>>, s |-> <<3>>, t |-> u[i]] ELSE [v |-> Edges[i - 3], s |-> <<3, 3>>, t |-> PottsTab(w[i - 3], 3)]])
     \/ /\ kind = "cut" /\ left = <<>>
        /\ \E w \in [1 .. 3 -> Cuts] : Load(<<3, 3, 3>>, [i \in 1 .. 3 |-> [v |-> Edges[i], s |-> <<3, 3>>, t |-> PottsTab(w[i], 3)]])
        /\ x = <<0, 0, 0>>
\* the test of a label: y[i] = 0 says variable i takes it; every other label is as good as the best of them
AuxU(f, l, b) == IF b = 0 THEN At(f, <<l>>) ELSE MinSeq([k \in 1 .. (f.s[1] - 1) |-> At(f, <<IF k - 1 < l THEN k - 1 ELSE k>>)])
AuxP(f, b, c) == LET e == At(f, <<0, 0>>) d == At(f, <<0, 1>>) IN IF b = 0 /\ c = 0 THEN e ELSE IF b # c THEN d ELSE Min2(e, d)
Aux(l, y) == SumSeq([i \in 1 .. Len(fa) |-> LET f == fa[i] IN IF Len(f.v) = 1 THEN AuxU(f, l, y[f.v[1] + 1]) ELSE AuxP(f, y[f.v[1] + 1], y[f.v[2] + 1])])
AuxMinima(l) == LET Y == [1 .. NV -> {0, 1}] m == MinSeq(SetToSeq({ Aux(l, y) : y \in Y })) IN { y \in Y : Aux(l, y) = m }
Test(l) == LET M == TLCEval(AuxMinima(l)) D == { i \in 1 .. NV : \A y \in M : y[i] = 0 } IN
  /\ kind = "potts" /\ D # {} /\ left' = [i \in 1 .. NV |-> IF i \in D THEN <<l>> ELSE left[i]] /\ UNCHANGED <<opr, sp, fa, tab, sol, kind, x>>
\* optimise within some variables
Within(S) == LET b == BestWithin("min", x, S) IN
  /\ kind = "cut" /\ \E r \in 1 .. Len(tab) : tab[r] = b /\ Outside(x, Unrank(sp, r - 1), S) /\ x' = Unrank(sp, r - 1)
  /\ UNCHANGED <<opr, sp, fa, tab, sol, kind, left>>
Next == (\E l \in 0 .. 2 : Test(l)) \/ (\E S \in (SUBSET Range0(NV)) \ {{}} : Within(S))
Spec == Init /\ [][Next]_vars
TestsPersist == kind = "potts" => StronglyPersistent("min", left)
DominatingPersist == kind = "potts" => \A v \in Range0(NV), l \in Range0(3) : Dominates(v, l) => StronglyPersistent("min", [i \in 1 .. NV |-> IF i = v + 1 THEN <<l>> ELSE <<0, 1, 2>>])
DominatingFound == kind = "potts" => \A v \in Range0(NV), l \in Range0(3) : Dominates(v, l) => \A y \in AuxMinima(l) : y[v + 1] = 0
CutsExact == kind = "cut" => \A th \in {-3, -1, 0} : SeparatedBest("min", th) = Opt("min")
CutsNoBetter == kind = "cut" => \A th \in {1, 2} : SeparatedBest("min", th) >= Opt("min")
NeverWorse == [][Value(x') <= Value(x)]_vars
=============================================================================
