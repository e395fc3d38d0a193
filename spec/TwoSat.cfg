CONSTANT N = 3
INIT Init
NEXT Next
INVARIANTS Decides Skew
CHECK_DEADLOCK FALSE
