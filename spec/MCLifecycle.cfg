SPECIFICATION Spec
CONSTANT MaxCalls = 4
INVARIANTS Function Consistent
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE
