CONSTANTS MASS = 3
  COSTS <- CostsDef
INIT MInit
NEXT MNext
INVARIANTS StaysFeasible Certified
CHECK_DEADLOCK FALSE
