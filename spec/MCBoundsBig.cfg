CONSTANTS
  Vals = {0, 2, 6}
  MaxDual = 6
SPECIFICATION Spec
INVARIANTS Enclosed AgreeOptimal
PROPERTIES AverageGains NeverWorse
CHECK_DEADLOCK FALSE
