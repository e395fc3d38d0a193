CONSTANTS Unaries = 4 Pairs = 7
INIT Init
NEXT Next
INVARIANTS Persistency LowerBound Tight
CHECK_DEADLOCK FALSE
