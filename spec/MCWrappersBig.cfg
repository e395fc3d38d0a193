CONSTANTS
  Un = {0, 2}
  Wt = {0, 1, 2, 4}
  Cut = {0, 1, 2, 3, 4, 5, 6}
SPECIFICATION Spec
INVARIANTS TestsPersist DominatingPersist DominatingFound CutsExact CutsNoBetter
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
