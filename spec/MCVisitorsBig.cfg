SPECIFICATION Spec
CONSTANTS MaxRuns = 2 MaxSteps = 3 MaxNth = 3
INVARIANTS InOrder OneEach Iterations EveryNth LogsMatch Silent
CHECK_DEADLOCK FALSE
