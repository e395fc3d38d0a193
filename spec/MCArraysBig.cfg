SPECIFICATION Spec
CONSTANTS MaxDim = 3 MaxLen = 3 MaxCells = 9 Depth = 2
INVARIANTS Inside Injective IndexRoundTrip Moves WriteRead
CHECK_DEADLOCK FALSE
