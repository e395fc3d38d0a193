CONSTANTS
  VMAX = 1
INIT MInit
NEXT MNext
INVARIANTS ValueKnown NeverStuck
