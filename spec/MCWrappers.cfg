CONSTANTS
  Un = {0, 2}
  Wt = {0, 3}
  Cut = {0, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS TestsPersist DominatingPersist DominatingFound CutsExact CutsNoBetter
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
