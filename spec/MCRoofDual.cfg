CONSTANTS Unaries = 3 Pairs = 5
INIT Init
NEXT Next
INVARIANTS Persistency LowerBound Tight
CHECK_DEADLOCK FALSE
