SPECIFICATION Spec
CONSTANTS MaxDim = 2 MaxLen = 3 MaxCells = 6 Depth = 2
INVARIANTS Inside Injective IndexRoundTrip Moves WriteRead
CHECK_DEADLOCK FALSE
