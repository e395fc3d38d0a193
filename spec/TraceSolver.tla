------------------------------ MODULE TraceSolver ---------------------------
EXTENDS SolverActions
TraceInit == TInit /\ NoModel /\ sol = NoSolver
TraceNext == (TEvent /\ SolverStep(Ev)) \/ (TDone /\ UNCHANGED svars)
=============================================================================
