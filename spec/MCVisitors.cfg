SPECIFICATION Spec
CONSTANTS MaxRuns = 2 MaxSteps = 2 MaxNth = 2
INVARIANTS InOrder OneEach Iterations EveryNth LogsMatch Silent
CHECK_DEADLOCK FALSE
