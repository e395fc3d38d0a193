---------------------------- MODULE TraceSampler -----------------------------
EXTENDS Sampler, TraceBase
\* TRACE-INVARIANTS HistSum ChainValid StepsBounded
Unch == UNCHANGED mvars
New(e) ==
  /\ Chk("starts where it was told to", e.start # <<>> => e.x = e.start)
  /\ Chk("valid start", Valid(e.x))
  /\ Chk("default start", e.start = <<>> => \A i \in 1 .. NV : e.x[i] = 0)
  /\ Create(e.alg, e.acc, e.cyclic, e.temp, e.steps, e.burn, e.x, e.ms)
\* what the sampler shows: the chain and the best labeling
Shown(e, s) ==
  /\ Chk("state", e.x = s.x)
  /\ Chk("state-value", e.v = Value(s.x))
  /\ Chk("best-value", e.bv = Value(s.best))
  /\ Chk("best-state", Valid(e.bx) /\ Value(e.bx) = e.bv)
Begin(e) == Chk("begin", smp.ph = "run" /\ smp.n = 0) /\ Shown(e, smp) /\ UNCHANGED smp
\* variable and label a step of Gibbs must be about, when it was drawn
CyclicOK(v) == smp.cyclic => (smp.off = -1 \/ v = (smp.n + smp.off) % NV)
OffAfter(v) == IF smp.cyclic /\ v >= 0 /\ smp.off = -1 THEN (((v - smp.n) % NV) + NV) % NV ELSE smp.off
GStep(e) ==
  LET D == Changed(smp.x, e.x)
      v == IF e.var >= 0 THEN e.var ELSE IF smp.cyclic /\ smp.off >= 0 THEN (smp.n + smp.off) % NV ELSE IF D # {} THEN CHOOSE q \in D : TRUE ELSE -1
  IN /\ Chk("steps left", smp.ph = "run" /\ StepsLeft)
     /\ Chk("valid", Valid(e.x))
     /\ Chk("one variable at a time", Cardinality(D) <= 1 /\ (v >= 0 => D \subseteq {v}))
     /\ Chk("cyclic order", v >= 0 => CyclicOK(v))
     /\ Chk("burn-in", e.burn = BurnIn)
     /\ Chk("accepted", D # {} => e.acc)
     /\ (IF v >= 0 /\ e.label >= 0
         THEN LET y == Put(smp.x, v, e.label) IN
           /\ Chk("state after", e.x \in {smp.x, y} /\ (e.x = y <=> e.acc))
           /\ Chk("improvement taken", Beats(smp.acc, Value(y), Value(smp.x)) => e.x = y)
           /\ Chk("accepted by its probability", (e.q >= 0 /\ ~smp.temp) => e.x = Target(v, e.label, e.q))
         ELSE TRUE)
GStepDo(e) ==
  LET v == IF e.var >= 0 THEN e.var ELSE LET D == Changed(smp.x, e.x) IN IF D # {} THEN CHOOSE q \in D : TRUE ELSE -1
      s2 == [smp EXCEPT !.x = e.x, !.best = BestAfter(e.x, TRUE), !.n = @ + 1, !.ask = e.ask, !.off = OffAfter(v), !.hist = IF BurnIn THEN @ ELSE Count(e.x),
              !.acd = @ + (IF ~BurnIn /\ e.acc THEN 1 ELSE 0), !.rej = @ + (IF ~BurnIn /\ ~e.acc THEN 1 ELSE 0)]
  IN Shown(e, s2) /\ smp' = s2
\* a step of Swendsen-Wang relabels a cluster of equally labeled variables
\* that hang together, all of them with the same new label
Linked(P) == \A S \in (SUBSET P) \ {{}, P} : \E i \in 1 .. Len(fa) : SeqSet(fa[i].v) \cap S # {} /\ SeqSet(fa[i].v) \cap (P \ S) # {}
SWStep(e) ==
  LET D == Changed(smp.x, e.x)
  IN /\ Chk("steps left", smp.ph = "run" /\ StepsLeft)
     /\ Chk("step number", e.n = smp.n)
     /\ Chk("valid", Valid(e.x))
     /\ Chk("cluster", D # {} => /\ e.acc /\ Cardinality(D) = e.size
                                 /\ Cardinality({ smp.x[q + 1] : q \in D }) = 1 /\ Cardinality({ e.x[q + 1] : q \in D }) = 1 /\ Linked(D))
     /\ Chk("burn-in", e.burn = BurnIn /\ (BurnIn => e.acc))
SWStepDo(e) ==
  LET s2 == [smp EXCEPT !.x = e.x, !.best = BestAfter(e.x, ~BurnIn /\ e.acc), !.n = @ + 1, !.hist = IF BurnIn THEN @ ELSE Count(e.x),
              !.acd = @ + (IF ~BurnIn /\ e.acc THEN 1 ELSE 0), !.rej = @ + (IF ~BurnIn /\ ~e.acc THEN 1 ELSE 0)]
  IN Shown(e, s2) /\ smp' = s2
Result(e) ==
  /\ Chk("all steps made", smp.ask \/ smp.n = smp.steps + smp.burn)
  /\ Chk("status", e.st = 1 /\ e.ret # 4)
  /\ Chk("result is the best labeling", Valid(e.x) /\ e.v = Value(e.x) /\ e.v = Value(smp.best))
  /\ Chk("beyond", e.st2 # 1)
  /\ Chk("samples", e.ns = smp.acd + smp.rej /\ e.na = smp.acd /\ e.nr = smp.rej)
  /\ Chk("histograms", e.hist = smp.hist)
  /\ smp' = [smp EXCEPT !.ph = "idle"]
SStep(e) ==
  CASE e.op = "model" -> LoadModel(e) /\ smp' = NoSampler
    [] e.op = "new"   -> New(e) /\ Unch
    [] e.op = "run"   -> Chk("idle", smp.ph = "idle") /\ StartRun /\ Unch
    [] e.op = "begin" -> Begin(e) /\ Unch
    [] e.op = "step"  -> (IF smp.alg = "sw" THEN SWStep(e) ELSE GStep(e)) /\ (IF smp.alg = "sw" THEN SWStepDo(e) ELSE GStepDo(e)) /\ Unch
    [] e.op = "end"   -> Chk("end", smp.ph = "run") /\ Shown(e, smp) /\ Stop /\ Unch
    [] e.op = "res"   -> Chk("after end", smp.ph = IF smp.alg = "sw" THEN "run" ELSE "ended") /\ Result(e) /\ Unch
    [] e.op = "reset" -> Reset /\ Chk("reset", e.x = smp.start /\ e.bv = Value(smp.start)) /\ Unch
    [] e.op = "from"  -> StartFrom(e.start) /\ Chk("start", e.x = e.start /\ e.bv = Value(e.start)) /\ Unch
    \* the same random numbers with the marginal visitor alone
    [] e.op = "replay" -> Chk("replay", e.same) /\ UNCHANGED svars
    [] e.op = "refuse" -> Chk("wrong start refused", e.ok) /\ UNCHANGED svars
    [] e.op = "same"  -> Chk("model-untouched", e.sp = sp /\ e.nf = Len(fa) /\ e.tab = tab) /\ UNCHANGED svars
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel /\ smp = NoSampler
TraceNext == (TEvent /\ SStep(Ev)) \/ (TDone /\ UNCHANGED svars)
=============================================================================
