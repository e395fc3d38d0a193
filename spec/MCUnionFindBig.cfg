CONSTANTS
  NMAX = 7
  START = 7
INIT MInit
NEXT MNext
INVARIANTS Refines Count Balanced
CHECK_DEADLOCK FALSE
