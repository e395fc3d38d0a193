INIT MCInit
NEXT MCNext
CONSTANTS MaxV = 3 MaxM = 2 MaxCopies = 6
INVARIANT AlwaysConsistent
PROPERTY ReorderSorts
CHECK_DEADLOCK FALSE
