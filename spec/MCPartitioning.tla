--------------------------- MODULE MCPartitioning ----------------------------
(* All weighted graphs on a few variables: improving moves of single        *)
(* variables decrease the cost by their gain and end in optimal clusterings *)
(* of their kind; no clustering that is optimal beats ... the optimum.      *)
EXTENDS Partitioning
CONSTANTS Vars, Weights
WeightSet == { k - 2 : k \in 0 .. Weights }
VARIABLES x, cost
Init == /\ n = Vars /\ L = Vars + 1 /\ c = 1 /\ w \in [Pairs(Vars) -> WeightSet]
        /\ x = [i \in 1 .. Vars |-> i - 1] /\ cost = Cost(x)
Next == \E v \in Range0(n), k \in Range0(n) : k # x[v + 1] /\ Gain(x, v, k) < 0 /\ x' = Put(x, v, k) /\ cost' = cost + Gain(x, v, k) /\ UNCHANGED pvars
CostExact == cost = Cost(x)
Stuck == (~ENABLED Next) => (SingleOptimal(x) \/ \E v \in Range0(n) : Gain(x, v, L) < 0)
\* whatever Kernighan-Lin cannot improve, single variables cannot improve
KLStronger == KLOptimal(x) => \A m \in SingleMoves(x) : Adjacent(x, x[m[1] + 1], m[2]) \/ m[2] = L => Gain(x, m[1], m[2]) >= 0 \/ (m[2] = L /\ Cardinality(Members(x, x[m[1] + 1])) = 1)
Bounded == OptCost <= cost
OptimalIsKLOptimal == cost = OptCost => KLOptimal(x) /\ SingleOptimal(x)
=============================================================================
