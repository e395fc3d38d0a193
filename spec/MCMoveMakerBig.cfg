CONSTANTS
  VMAX = 2
INIT MInit
NEXT MNext
INVARIANTS ValueKnown NeverStuck
