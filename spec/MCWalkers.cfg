CONSTANTS
  SHAPES <- ShapesDef
INIT MInit
NEXT MNext
INVARIANTS Agree Legal Distinct
CHECK_DEADLOCK FALSE
