INIT MCInit
NEXT MCNext
CONSTANTS MaxV = 4 MaxF = 4
INVARIANTS ComponentsOK AcyclicOK ChainOK GridOK SymOK
CHECK_DEADLOCK FALSE
