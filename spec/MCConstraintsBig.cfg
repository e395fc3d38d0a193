CONSTANT Full = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
