CONSTANTS N = 3 K = 2 Costs = {0, 1, 2} PerIter = 1
SPECIFICATION Spec
INVARIANTS Sound Final Short OnlyViolatedAdded
PROPERTIES Rising Ends
CHECK_DEADLOCK FALSE
