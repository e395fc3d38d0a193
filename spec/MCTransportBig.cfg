CONSTANTS MASS = 4
  COSTS <- CostsBig
INIT MInit
NEXT MNext
INVARIANTS StaysFeasible Certified
CHECK_DEADLOCK FALSE
