CONSTANTS
  N = 4
  PR = {1, 2, 3}
INIT MInit
NEXT MNext
INVARIANTS Contents HeapOrder TopOK Table
CHECK_DEADLOCK FALSE
