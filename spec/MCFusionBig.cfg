CONSTANTS Unaries = 3 Pairs = 4 GENS = {"alpha", "swap"}
INIT Init
NEXT Next
INVARIANTS ProposalsValid Never LocallyBest Terminates
PROPERTIES Descending
CHECK_DEADLOCK FALSE
