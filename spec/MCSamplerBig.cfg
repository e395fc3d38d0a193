CONSTANTS Steps = 5 Burn = 1
INIT Init
NEXT Next
INVARIANTS HistSum BestIsNotWorse ChainValid StepsBounded BestOfSeen NoZero SamplesCounted
CHECK_DEADLOCK FALSE
