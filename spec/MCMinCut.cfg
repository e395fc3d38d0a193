CONSTANTS
  NN = 4
  NE = 3
  CMAX = 2
INIT MInit
NEXT MNext
INVARIANTS Duality Monotone
CHECK_DEADLOCK FALSE
