-------------------------------- MODULE Solver ------------------------------
(* The contract of an inference algorithm as a state machine.               *)
(*                                                                          *)
(*   idle --run--> ready --begin--> running --step*--> (stopping) --end-->  *)
(*   ended --ret--> returned --res--> idle                                  *)
(*                                                                          *)
(* hist keeps what the solver showed at the last visitor call; what may be  *)
(* claimed about labelings, values and bounds depends on the kind of solver *)
(* (Caps) and on the model: the conditions (acyclic, binary submodular,     *)
(* metric, ...) are decided by the specification, not by the driver.        *)
EXTENDS ModelBase
VARIABLES sol      \* the solver under observation
svars == <<opr, sp, fa, tab, sol>>
NoSolver == [name |-> "none", acc |-> "min", par |-> [zz |-> 0], ph |-> "none", start |-> <<>>, x |-> <<>>, v |-> 0, n |-> 0, b |-> 0, asked |-> FALSE, vis |-> FALSE, status |-> -1, runs |-> 0, first |-> <<>>]

UNKNOWN == 0  NORMAL == 1  TIMEOUT == 2  CONVERGENCE == 3  ERROR == 4
Better2(a, p, q) == IF a = "min" THEN p < q ELSE p > q
Par(p, k, d) == IF k \in DOMAIN p THEN p[k] ELSE d
MinBool(a) == a = "min"

-----------------------------------------------------------------------------
(* Structural conditions on the model.                                      *)
Order(i) == Len(fa[i].v)
MaxOrder == IF Len(fa) = 0 THEN 0 ELSE MaxSeq([i \in 1 .. Len(fa) |-> Order(i)])
AtMostPairwise == MaxOrder <= 2
BinaryLabels == \A i \in 1 .. NV : sp[i] = 2
At(f, y) == f.t[Rank(f.s, y) + 1]
\* submodular (for min; supermodular for max) factors of binary variables
SubmodularFactor(a, f) ==
  \A i, j \in 1 .. Len(f.v) : i < j => \A r \in 1 .. Len(f.t) :
    LET y == Unrank(f.s, r - 1) g(p, q) == At(f, [y EXCEPT ![i] = p, ![j] = q])
    IN (y[i] = 0 /\ y[j] = 0) => IF a = "min" THEN g(0, 0) + g(1, 1) <= g(0, 1) + g(1, 0) ELSE g(0, 0) + g(1, 1) >= g(0, 1) + g(1, 0)
Submodular(a) == BinaryLabels /\ \A i \in 1 .. Len(fa) : SubmodularFactor(a, fa[i])
\* models graph cut can represent (submodularity is the caller's business)
CutAccepts(a) == BinaryLabels /\ MaxOrder <= IF a = "min" THEN 3 ELSE 2
\* pairwise factors that are (semi-)metrics on a common label set
SymZero(f) == Len(f.v) = 2 => (f.s[1] = f.s[2] /\ \A p, q \in Range0(f.s[1]) : At(f, <<p, p>>) = 0 /\ At(f, <<p, q>>) = At(f, <<q, p>>) /\ At(f, <<p, q>>) >= 0)
Triangle(f) == Len(f.v) = 2 => \A p, q, s \in Range0(f.s[1]) : At(f, <<p, s>>) <= At(f, <<p, q>>) + At(f, <<q, s>>)
UniformLabels == \A i, j \in 1 .. NV : sp[i] = sp[j]
SemiMetric == UniformLabels /\ AtMostPairwise /\ \A i \in 1 .. Len(fa) : SymZero(fa[i])
Metric == SemiMetric /\ \A i \in 1 .. Len(fa) : Triangle(fa[i])
\* every swap move is a submodular binary problem
SwapOK == UniformLabels /\ AtMostPairwise /\ \A i \in 1 .. Len(fa) : Order(i) = 2 =>
   LET f == fa[i] IN \A p, q \in Range0(f.s[1]) : At(f, <<p, p>>) + At(f, <<q, q>>) <= At(f, <<p, q>>) + At(f, <<q, p>>)

-----------------------------------------------------------------------------
(* Neighbourhoods.                                                          *)
Diff(x, y) == { v \in Range0(NV) : x[v + 1] # y[v + 1] }
Scopes == { SeqSet(fa[i].v) : i \in 1 .. Len(fa) }
RECURSIVE Grow(_, _)
Grow(S, T) == LET N == { v \in S \ T : \E c \in Scopes : v \in c /\ c \cap T # {} } IN IF N = {} THEN T ELSE Grow(S, T \cup N)
Connected(S) == S = {} \/ LET v == CHOOSE q \in S : TRUE IN Grow(S, {v}) = S
NotImproved(a, x, N(_)) == LET vx == Value(x) IN \A r \in 1 .. Len(tab) : Better2(a, tab[r], vx) => ~N(Unrank(sp, r - 1))
SingleOpt(a, x) == NotImproved(a, x, LAMBDA y : Cardinality(Diff(x, y)) <= 1)
FactorOpt(a, x) == NotImproved(a, x, LAMBDA y : LET D == Diff(x, y) IN Cardinality(D) <= 1 \/ \E c \in Scopes : D \subseteq c)
SubsetOpt(a, x, k) == NotImproved(a, x, LAMBDA y : LET D == Diff(x, y) IN Cardinality(D) <= k /\ Connected(D))
ExpansionOpt(a, x) == NotImproved(a, x, LAMBDA y : LET D == Diff(x, y) IN \A p, q \in D : y[p + 1] = y[q + 1])
SwapOpt(a, x) == NotImproved(a, x, LAMBDA y : LET D == Diff(x, y) IN Cardinality({ y[p + 1] : p \in D } \cup { x[p + 1] : p \in D }) <= 2)

-----------------------------------------------------------------------------
(* What each algorithm promises.                                            *)
\* exact: a global optimum on NORMAL/CONVERGENCE termination of an undisturbed run
Exact(s) ==
  CASE s.name \in {"bruteforce", "astar"} -> TRUE
    [] s.name \in {"dynprog"} -> ModelAcyclic /\ AtMostPairwise
    [] s.name \in {"bp", "trbp"} -> ModelAcyclic
    [] s.name \in {"graphcut"} -> Submodular(s.acc)
    [] OTHER -> FALSE
\* the accepted models: on others the solver must refuse (exception) or may do anything declared
\* value(): exactly the model's value of arg()
ValueOfArg(s) == TRUE
\* never worse than the start, monotone from step to step
Monotone(s) ==
  CASE s.name \in {"icm", "lazyflipper", "infandflip", "fusion", "selffusion"} -> TRUE
    [] s.name = "expansionfusion" -> s.acc = "min"
    [] s.name = "alphaexpansion" -> s.acc = "min" /\ Metric
    [] s.name = "alphabetaswap" -> s.acc = "min" /\ SwapOK
    [] OTHER -> FALSE
\* solvers whose bound equals the optimum when they finish
BoundTight(s) == s.name = "astar"
LocallyOptimal(s, x) ==
  CASE s.name = "icm" -> IF Par(s.par, "factor", 0) = 1 THEN FactorOpt(s.acc, x) ELSE SingleOpt(s.acc, x)
    [] s.name = "infandflip" /\ Par(s.par, "k", 0) > 0 -> SubsetOpt(s.acc, x, Par(s.par, "k", 1))
    [] s.name = "lazyflipper" -> SubsetOpt(s.acc, x, Par(s.par, "k", 1))
    [] s.name = "alphaexpansion" -> (s.acc = "min" /\ Metric) => ExpansionOpt(s.acc, x)
    [] s.name = "alphabetaswap" -> (s.acc = "min" /\ SwapOK) => SwapOpt(s.acc, x)
    [] OTHER -> TRUE
StartNames == {"icm", "lazyflipper", "infandflip", "alphaexpansion", "alphabetaswap", "fusion", "selffusion", "expansionfusion"}
Starts(s) == s.name \in StartNames

\* b is the bound times 1000; infinities are sentinels
BoundOn(a, b, v) ==
  \/ b = NotNum /\ FALSE
  \/ IF a = "min" THEN b = NEGINF \/ b = -TooBig \/ (b = TooBig /\ v >= 1000000) \/ (IsNum(b) /\ b <= Scaled(v) + 5)
     ELSE b = POSINF \/ b = TooBig \/ (b = -TooBig /\ v <= -1000000) \/ (IsNum(b) /\ b >= Scaled(v) - 5)
=============================================================================
