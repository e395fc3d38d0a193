INIT MCInit
NEXT MCNext
INVARIANTS Representable GridLen
PROPERTIES StaticCount AppendOnly
CHECK_DEADLOCK FALSE
