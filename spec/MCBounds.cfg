CONSTANTS
  Vals = {0, 2}
  MaxDual = 4
SPECIFICATION Spec
INVARIANTS Enclosed AgreeOptimal
PROPERTIES AverageGains NeverWorse
CHECK_DEADLOCK FALSE
