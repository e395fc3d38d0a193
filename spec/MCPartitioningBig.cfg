CONSTANTS Vars = 4 Weights = 3
INIT Init
NEXT Next
INVARIANTS CostExact KLStronger Bounded OptimalIsKLOptimal Stuck
CHECK_DEADLOCK FALSE
