INIT MCInit
NEXT MCNext
CONSTANTS MaxV = 4 MaxF = 3
INVARIANTS ComponentsOK AcyclicOK ChainOK GridOK SymOK
PROPERTY Monotone
CHECK_DEADLOCK FALSE
