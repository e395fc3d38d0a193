----------------------------- MODULE TraceBounds -----------------------------
EXTENDS Bounds, SolverActions
DualShown(e) ==
  /\ Chk("bound-valid", BoundOn(sol.acc, e.b, Opt(sol.acc)))
  /\ Chk("value-of-arg", ValueShown(sol.acc, e.v, e.x))
  /\ Chk("enclosed", Enclosed(sol.acc, e.b, e.v))
DualProgress(e) ==
  /\ Chk("value-monotone", ValueNotWorse(sol.acc, e.v, sol.v))
  /\ Chk("bound-monotone", Par(sol.par, "mono", 1) = 1 => BoundNotWorse(sol.acc, e.b, sol.b))
DualBegin(e) ==
  /\ Chk("protocol-begin", sol.ph = "ready") /\ DualShown(e)
  /\ sol' = [sol EXCEPT !.ph = "running", !.v = e.v, !.b = e.b, !.x = e.x]
DualStep(e) ==
  /\ Chk("protocol-step", sol.ph = "running" /\ ~sol.asked) /\ DualShown(e) /\ DualProgress(e)
  /\ sol' = [sol EXCEPT !.v = e.v, !.b = e.b, !.x = e.x, !.n = @ + 1, !.asked = (e.ask # 0)]
DualEnd(e) ==
  /\ Chk("protocol-end", sol.ph = "running") /\ DualShown(e) /\ DualProgress(e)
  /\ sol' = [sol EXCEPT !.ph = "ended", !.v = e.v, !.b = e.b, !.x = e.x]
DualRes(e) ==
  /\ Chk("protocol-res", sol.ph = "returned") /\ DualShown(e)
  /\ Chk("as-at-end", sol.vis => (e.v = sol.v /\ e.b = sol.b /\ e.x = sol.x))
  /\ Chk("has-value", Finished => (e.st = NORMAL /\ ~NoValue(sol.acc, e.v)))
  /\ Chk("gap-closed", (Finished /\ GapCloses(sol)) => (e.v = Opt(sol.acc) /\ Closed(e.b, e.v)))
  /\ sol' = [sol EXCEPT !.ph = "idle", !.x = e.x, !.v = e.v, !.b = e.b, !.runs = @ + 1]
Accept(e) == Chk("accepts", e.ok = Accepts(e.solver, e.decomp))
\* a labeling on which all sub-problems agree is optimal, and the bound is its value
Agree(e) ==
  /\ Chk("agree-size", Len(e.ag) = NV /\ Valid(e.l))
  /\ Chk("agree-optimal", (\A i \in 1 .. NV : e.ag[i] = 1) => (Value(e.l) = Opt(sol.acc) /\ Closed(sol.b, Value(e.l))))
\* solvers without a dual: what they show as bound is none or valid
PlainBound(e) == Chk("bound-valid", BoundOn(sol.acc, e.b, Opt(sol.acc)))
TraceStep(e) ==
  CASE e.op = "accept" -> Accept(e) /\ UNCHANGED svars
    [] e.op = "agree" -> Agree(e) /\ UNCHANGED svars
    [] e.op = "begin" /\ Dual(sol) -> DualBegin(e) /\ Unch
    [] e.op = "step" /\ Dual(sol) -> DualStep(e) /\ Unch
    [] e.op = "end" /\ Dual(sol) -> DualEnd(e) /\ Unch
    [] e.op = "res" /\ Dual(sol) -> DualRes(e) /\ Unch
    [] e.op \in {"begin", "step", "end"} -> PlainBound(e) /\ SolverStep(e)
    [] OTHER -> SolverStep(e)
TraceInit == TInit /\ NoModel /\ sol = NoSolver
TraceNext == (TEvent /\ TraceStep(Ev)) \/ (TDone /\ UNCHANGED svars)
=============================================================================
