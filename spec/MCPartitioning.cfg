CONSTANTS Vars = 3 Weights = 4
INIT Init
NEXT Next
INVARIANTS CostExact KLStronger Bounded OptimalIsKLOptimal Stuck
CHECK_DEADLOCK FALSE
