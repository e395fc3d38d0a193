SPECIFICATION Spec
CONSTANT MaxCalls = 6
INVARIANTS Function Consistent
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE
