CONSTANTS N = 3 K = 3 Costs = {0, 1, 2} PerIter = 2
SPECIFICATION Spec
INVARIANTS Sound Final Short OnlyViolatedAdded
PROPERTIES Rising Ends
CHECK_DEADLOCK FALSE
