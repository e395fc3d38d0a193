-------------------------------- MODULE Bounds ------------------------------
(* Solvers that enclose the optimum between the value of the best labeling  *)
(* found and a dual bound: dual decomposition with subgradient steps, tree- *)
(* reweighted sequential message passing, adaptive diminishing smoothing    *)
(* and Nesterov's accelerated gradient.  At every visit                     *)
(*     bound <= optimum <= value   (mirrored for maximisation),             *)
(* value is the model's value of the labeling shown (or neutral while there *)
(* is none yet), and neither ever gets worse.                               *)
EXTENDS Solver
DualNames == {"dd", "trws", "adsal", "nesterov"}
Dual(s) == s.name \in DualNames
\* no labeling yet
NoValue(a, v) == IF a = "min" THEN v \in {POSINF, TooBig} ELSE v \in {NEGINF, -TooBig}
NoBound(a, b) == IF a = "min" THEN b \in {NEGINF, -TooBig} ELSE b \in {POSINF, TooBig}
\* bounds are scaled by 1000
BTol == 5
BoundNotWorse(a, p, q) == NoBound(a, q) \/ (IsNum(p) /\ IsNum(q) /\ IF a = "min" THEN p >= q - BTol ELSE p <= q + BTol)
ValueNotWorse(a, p, q) == NoValue(a, q) \/ (~NoValue(a, p) /\ NotWorse(a, p, q))
ValueShown(a, v, x) == NoValue(a, v) \/ (Valid(x) /\ v = Value(x))
Enclosed(a, b, v) == BoundOn(a, b, Opt(a)) /\ (NoValue(a, v) \/ NotWorse(a, Opt(a), v))
Closed(b, v) == (b = TooBig /\ v >= 1000000) \/ (b = -TooBig /\ v <= -1000000) \/ (IsNum(b) /\ IsNum(v) /\ Abs(b - Scaled(v)) <= 2 * BTol)

-----------------------------------------------------------------------------
(* Models accepted.  Tree-reweighted solvers want one unary factor for      *)
(* every variable and otherwise factors of two variables; for the grid      *)
(* decomposition these are those of a grid, in the order of the grid: the   *)
(* unaries first, then row by row, right neighbour before lower neighbour.  *)
UnariesOf(v) == { i \in 1 .. Len(fa) : fa[i].v = <<v>> }
TrwsAccepts ==
  /\ \A i \in 1 .. Len(fa) : Order(i) \in {1, 2}
  /\ \A v \in Range0(NV) : Cardinality(UnariesOf(v)) = 1
RECURSIVE GridPairs(_, _, _, _)
GridPairs(w, h, x, y) ==
  IF y = h THEN <<>>
  ELSE LET n == x + w * y
           me == (IF x < w - 1 THEN <<<<n, n + 1>>>> ELSE <<>>) \o (IF y < h - 1 THEN <<<<n, n + w>>>> ELSE <<>>)
       IN me \o IF x < w - 1 THEN GridPairs(w, h, x + 1, y) ELSE GridPairs(w, h, 0, y + 1)
GridAccepts ==
  /\ TrwsAccepts /\ Len(fa) >= NV
  /\ \A i \in 1 .. NV : Order(i) = 1
  /\ \E w \in 1 .. NV : (NV % w = 0) /\ (w > 1 \/ NV = 1) /\ [k \in 1 .. (Len(fa) - NV) |-> fa[NV + k].v] = GridPairs(w, NV \div w, 0, 0)
Accepts(name, decomp) == CASE name \in {"trws", "adsal", "nesterov"} -> IF decomp = 1 THEN GridAccepts ELSE TrwsAccepts
                           [] OTHER -> TRUE
\* the gap closes: a single tree of exactly solved sub-problems at once, tree-reweighted message passing on
\* forests when it may run until the trees agree
GapCloses(s) ==
  CASE s.name = "dd" -> ModelAcyclic /\ Par(s.par, "tree", 0) = 1 /\ Par(s.par, "iters", 0) > 0
    [] s.name = "trws" -> ModelAcyclic /\ Par(s.par, "long", 0) = 1
    [] s.name = "adsal" -> ModelAcyclic /\ Par(s.par, "long", 0) = 1
    [] OTHER -> FALSE
=============================================================================
