---------------------------- MODULE TraceWrappers ---------------------------
EXTENDS Wrappers, SolverActions
WShown(e) ==
  /\ Chk("has-labeling", e.st = NORMAL /\ Valid(e.x))
  /\ Chk("value-of-arg", e.v = Value(e.x))
  /\ Chk("bound-valid", BoundOn(sol.acc, e.b, Opt(sol.acc)))
  \* what is decided for good only improves the other labels' labeling
  /\ Chk("not-worse", sol.name = "hqpbo" => NotWorse(sol.acc, e.v, Value(sol.x)))
WBegin(e) ==
  /\ Chk("protocol-begin", sol.ph = "ready") /\ WShown(e)
  /\ sol' = [sol EXCEPT !.ph = "running", !.v = e.v, !.x = e.x, !.b = e.b]
WStep(e) ==
  /\ Chk("protocol-step", sol.ph = "running" /\ ~sol.asked) /\ WShown(e)
  /\ sol' = [sol EXCEPT !.v = e.v, !.x = e.x, !.b = e.b, !.n = @ + 1, !.asked = (e.ask # 0)]
WEnd(e) ==
  /\ Chk("protocol-end", sol.ph = "running") /\ WShown(e)
  /\ sol' = [sol EXCEPT !.ph = "ended", !.v = e.v, !.x = e.x, !.b = e.b]
WRes(e) ==
  /\ Chk("protocol-res", sol.ph = "returned") /\ WShown(e)
  /\ Chk("as-at-end", sol.vis => (e.v = sol.v /\ e.b = sol.b /\ e.x = sol.x))
  /\ Chk("cuts-repulsive", (sol.name = "dmc" /\ Finished) => Separated(e.x, Together(Par(sol.par, "thr", 0))))
  /\ LET s == [sol EXCEPT !.ph = "idle", !.x = e.x, !.v = e.v, !.b = e.b, !.runs = @ + 1] IN
     /\ Chk("exact", (Finished /\ s.name = "reduced" /\ Par(s.par, "exact", 0) = 1) => e.v = Opt(s.acc))
     /\ Chk("exact", (Finished /\ s.name = "dmc" /\ Par(s.par, "exact", 0) = 1) => (e.v = SeparatedBest(s.acc, Par(s.par, "thr", 0)) /\ (Par(s.par, "thr", 0) <= 0 => e.v = Opt(s.acc))))
     /\ sol' = s
\* a solver may refuse models it is not for
WConstruct(e) == Chk("refusal", e.ok = CASE e.solver = "mqpbo" -> AtMostPairwise [] OTHER -> TRUE)
WRefuse(e) == Chk("refused", e.ok = (sol.name # "dmc" \/ AllPairs)) /\ sol' = [sol EXCEPT !.ph = IF e.ok THEN @ ELSE "idle"]
Left(e) ==
  /\ Chk("label-sets", Len(e.left) = NV /\ Len(e.opt) = NV /\ Len(e.lab) = NV /\ \A i \in 1 .. NV : Len(e.left[i]) > 0)
  /\ Chk("persistent", WeaklyPersistent(sol.acc, e.left))
  /\ Chk("strongly-persistent", e.strong = 1 => StronglyPersistent(sol.acc, e.left))
  /\ \A i \in 1 .. NV : Chk("decided", (e.opt[i] = 1) = (Len(e.left[i]) = 1 /\ sp[i] > 1) /\ (e.opt[i] = 1 => e.lab[i] = e.left[i][1]))
  /\ Chk("arg-fits", Fits(e.x, e.left))
  /\ Chk("dominating", (e.kovtun = 1 /\ PottsModel /\ UniformLabels) => \A i \in 1 .. NV : \A k \in Range0(sp[i]) : Dominates(i - 1, k) => e.left[i] = <<k>>)
  /\ Chk("share", e.share = (LET tot == SumSeq(sp) IN (SumSeq([i \in 1 .. NV |-> IF Len(e.left[i]) = 1 THEN sp[i] ELSE sp[i] - Len(e.left[i])]) * 1000) \div tot))
SubInf(e) ==
  LET S == SeqSet(e.vs) y == Put(e.x0, e.vs, e.ls) IN
  /\ Chk("sub-valid", Len(e.ls) = Len(e.vs) /\ Valid(y))
  /\ Chk("sub-optimal", Value(y) = BestWithin(e.acc, e.x0, S))
  /\ Chk("sub-changed", (e.ch = 1) = (y # e.x0))
TraceStep(e) ==
  CASE e.op = "left" -> Left(e) /\ UNCHANGED svars
    [] e.op = "sub" -> SubInf(e) /\ UNCHANGED svars
    [] e.op = "construct" -> WConstruct(e) /\ UNCHANGED svars
    [] e.op = "refuse" /\ Wrap(sol) -> WRefuse(e) /\ Unch
    [] e.op = "begin" /\ Wrap(sol) -> WBegin(e) /\ Unch
    [] e.op = "step" /\ Wrap(sol) -> WStep(e) /\ Unch
    [] e.op = "end" /\ Wrap(sol) -> WEnd(e) /\ Unch
    [] e.op = "res" /\ Wrap(sol) -> WRes(e) /\ Unch
    [] OTHER -> SolverStep(e)
TraceInit == TInit /\ NoModel /\ sol = NoSolver
TraceNext == (TEvent /\ TraceStep(Ev)) \/ (TDone /\ UNCHANGED svars)
=============================================================================
