INIT Init
NEXT Next
CONSTANTS Shapes <- ShapesBig Values <- ValuesBig
INVARIANTS PottsAgrees DiffAgrees Implications DiffImplications
CHECK_DEADLOCK FALSE
