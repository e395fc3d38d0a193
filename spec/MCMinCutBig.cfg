CONSTANTS
  NN = 4
  NE = 4
  CMAX = 1
INIT MInit
NEXT MNext
INVARIANTS Duality Monotone
CHECK_DEADLOCK FALSE
