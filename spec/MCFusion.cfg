CONSTANTS Unaries = 2 Pairs = 3 GENS = {"alpha", "swap"}
INIT Init
NEXT Next
INVARIANTS ProposalsValid Never LocallyBest Terminates
PROPERTIES Descending
CHECK_DEADLOCK FALSE
