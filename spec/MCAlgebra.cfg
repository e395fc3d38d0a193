CONSTANTS LEN = 4
INIT MInit
NEXT MNext
INVARIANTS Folded Attained
CHECK_DEADLOCK FALSE
