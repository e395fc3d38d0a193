CONSTANTS MaxVars = 3 MaxLabels = 2 MaxFactors = 2
INIT Init
NEXT Next
INVARIANTS RoundTrip PrefixesRefused RemovedWordRefused ScopeOrderIrrelevant
CHECK_DEADLOCK FALSE
