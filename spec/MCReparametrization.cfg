CONSTANTS Vals = {0, 1} Pairs = 2 Steps = 4
SPECIFICATION Spec
INVARIANTS Preserved Under ConsistentIsOptimal Swept
CHECK_DEADLOCK FALSE
