----------------------------- MODULE TraceGreedy ------------------------------
EXTENDS Greedy, TraceBase
VARIABLES acc, cand, ph, asked, steps, last
gvars == <<opr, sp, fa, tab, acc, cand, ph, asked, steps, last>>
\* cand: the configurations that explain what was shown so far
Shown(e) == Chk("valid", e.st = 1 /\ Valid(e.x)) /\ Chk("value", e.v = Value(e.x)) /\ Chk("bound", BoundOK(acc, e.b, Scaled(Opt(acc))) \/ e.b \in {TooBig, -TooBig})
GStep(e) ==
  CASE e.op = "model" -> LoadModel(e) /\ acc' = "min" /\ cand' = {} /\ ph' = "none" /\ asked' = FALSE /\ steps' = 0 /\ last' = <<>>
    [] e.op = "new" -> /\ Chk("default", e.st = 1 /\ \A i \in 1 .. NV : e.x[i] = 0) /\ acc' = e.acc /\ ph' = "idle" /\ last' = e.x /\ UNCHANGED <<opr, sp, fa, tab, cand, asked, steps>>
    [] e.op = "run" -> Chk("idle", ph = "idle") /\ ph' = (IF e.vis = 1 THEN "ready" ELSE "blind") /\ asked' = FALSE /\ steps' = 0 /\ cand' = {<<{}, last>>} /\ UNCHANGED <<opr, sp, fa, tab, acc, last>>
    [] e.op = "begin" -> Chk("begin", ph = "ready" /\ e.x = last) /\ Shown(e) /\ ph' = "running" /\ UNCHANGED <<opr, sp, fa, tab, acc, cand, asked, steps, last>>
    [] e.op = "step" ->
         LET C == TLCEval({ p \in Extend(acc, cand) : p[2] = e.x }) IN
         /\ Chk("step", ph = "running" /\ ~asked /\ steps < NV) /\ Shown(e) /\ Chk("greedy", C # {})
         /\ cand' = C /\ steps' = steps + 1 /\ asked' = (e.ask # 0) /\ last' = e.x /\ UNCHANGED <<opr, sp, fa, tab, acc, ph>>
    [] e.op = "end" -> Chk("end", ph = "running" /\ e.x = last /\ (asked \/ steps = NV)) /\ Shown(e) /\ ph' = "ended" /\ UNCHANGED <<opr, sp, fa, tab, acc, cand, asked, steps, last>>
    [] e.op = "ret" -> Chk("return", ph \in {"ended", "blind"} /\ (asked \/ e.st \in {1, 3})) /\ ph' = (IF ph = "blind" THEN "late" ELSE "returned") /\ UNCHANGED <<opr, sp, fa, tab, acc, cand, asked, steps, last>>
    [] e.op = "res" -> /\ Shown(e) /\ Chk("result", IF ph = "returned" THEN e.x = last ELSE ph = "late" /\ \E p \in Closure(acc, cand, NV) : p[2] = e.x)
                       /\ ph' = "idle" /\ last' = e.x /\ UNCHANGED <<opr, sp, fa, tab, acc, cand, asked, steps>>
    [] e.op = "reset" -> Chk("reset", e.st = 1 /\ \A i \in 1 .. NV : e.x[i] = 0) /\ last' = e.x /\ UNCHANGED <<opr, sp, fa, tab, acc, cand, ph, asked, steps>>
    [] e.op = "beyond" -> Chk("beyond", e.st # 1) /\ UNCHANGED gvars
    [] e.op = "same"  -> Chk("model-untouched", e.sp = sp /\ e.nf = Len(fa) /\ e.tab = tab) /\ UNCHANGED gvars
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel /\ acc = "min" /\ cand = {} /\ ph = "none" /\ asked = FALSE /\ steps = 0 /\ last = <<>>
TraceNext == (TEvent /\ GStep(Ev)) \/ (TDone /\ UNCHANGED gvars)
=============================================================================
