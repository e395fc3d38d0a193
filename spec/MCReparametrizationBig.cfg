CONSTANTS Vals = {0, 2} Pairs = 4 Steps = 5
SPECIFICATION Spec
INVARIANTS Preserved Under ConsistentIsOptimal Swept
CHECK_DEADLOCK FALSE
