CONSTANTS
  KEYS = {1, 2, 11, 13, 21}
  STACK = 1
  MAXLEN = 1
  BLOCKS = 1
INIT MInit
NEXT MNextSet
INVARIANTS SortedSets
CHECK_DEADLOCK FALSE
