--------------------------- MODULE TraceTransport ---------------------------
EXTENDS Transport, TraceBase
tvars == <<prob, bnd>>
SOpt(s) == IF s = "min" THEN 1 ELSE -1
Step(e) ==
  CASE e.op = "problem" -> prob' = [c |-> e.c, xs |-> e.xs, ys |-> e.ys, sign |-> SOpt(e.opt)] /\ UNCHANGED bnd
    [] e.op = "solved" -> /\ Chk("feasible", Feasible(e.p, prob.xs, prob.ys, e.a, e.b))
                          /\ Chk("cost-of-plan", e.v = CostOf(prob.c, e.p) /\ e.v2 = e.v /\ e.v3 = e.v)
                          /\ Chk("optimal", OptimalPlan(prob.c, e.p, prob.xs, prob.ys, prob.sign))
                          /\ UNCHANGED tvars
    [] e.op = "transpose" -> Chk("transpose", Len(e.t) = prob.xs * prob.ys /\ e.xs = prob.ys /\ e.ys = prob.xs /\ \A x \in 0 .. (prob.xs - 1), y \in 0 .. (prob.ys - 1) : At2(e.t, prob.ys, y, x) = At2(prob.c, prob.xs, x, y)) /\ UNCHANGED tvars
    [] e.op = "bound" -> bnd' = [sp |-> e.sp, fa |-> e.fa, sign |-> SOpt(e.opt), n |-> e.n, mu |-> [v \in 1 .. Len(e.sp) |-> [i \in 1 .. e.sp[v] |-> 0]]] /\ UNCHANGED prob
    [] e.op = "marginal" -> SetMarginal(e.v, e.m)
    [] e.op = "get" -> Chk("marginal", e.m = bnd.mu[e.v + 1]) /\ UNCHANGED tvars
    [] e.op = "variable" -> Chk("variable-value", e.x = VarCost(e.v)) /\ UNCHANGED tvars
    [] e.op = "factor" -> Chk("factor-value", e.x = FacCost(bnd.fa[e.f + 1])) /\ UNCHANGED tvars
    [] e.op = "plan" -> LET f == bnd.fa[e.f + 1] xs == bnd.sp[f.v[1] + 1] ys == bnd.sp[f.v[2] + 1] IN
                        /\ Chk("plan-feasible", Feasible(e.p, xs, ys, bnd.mu[f.v[1] + 1], bnd.mu[f.v[2] + 1]))
                        /\ Chk("plan-value", e.x = CostOf(f.t, e.p)) /\ Chk("plan-optimal", OptimalPlan(f.t, e.p, xs, ys, bnd.sign)) /\ UNCHANGED tvars
    [] e.op = "total" -> Chk("total", e.x = Total) /\ UNCHANGED tvars
    [] e.op = "refused" -> Chk("refused", e.t) /\ UNCHANGED tvars
    [] e.op = "reset" -> UNCHANGED tvars
    [] OTHER -> FALSE
TraceInit == TInit /\ prob = [c |-> <<>>, xs |-> 0, ys |-> 0, sign |-> 1] /\ bnd = [sp |-> <<>>, fa |-> <<>>, sign |-> 1, n |-> 1, mu |-> <<>>]
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED tvars)
=============================================================================
