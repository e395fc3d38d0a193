CONSTANTS
  NMAX = 5
  START = 5
INIT MInit
NEXT MNext
INVARIANTS Refines Count Balanced
CHECK_DEADLOCK FALSE
