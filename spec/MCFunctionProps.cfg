INIT Init
NEXT Next
CONSTANTS Shapes <- ShapesDef Values <- ValuesDef
INVARIANTS PottsAgrees DiffAgrees Implications DiffImplications
CHECK_DEADLOCK FALSE
