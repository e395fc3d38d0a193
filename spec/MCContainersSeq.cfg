CONSTANTS
  KEYS = {1}
  STACK = 2
  MAXLEN = 4
  BLOCKS = 4
INIT MInit
NEXT MNextSeq
INVARIANTS Holds NoLeak OwnBlocks NotShared
CHECK_DEADLOCK FALSE
