---------------------------- MODULE TraceLifecycle --------------------------
EXTENDS Lifecycle, TraceBase
Out(e) == [st |-> e.st, x |-> e.x, v |-> e.v, b |-> e.b]
\* anything reported as a labeling is one, with its value
Sound(e) == Chk("valid", e.st = NORMAL => (Valid(e.x) /\ e.v = Value(e.x)))
Made(e) == obj[e.o].made
Make(e) ==
  /\ Chk("new", ~Made(e)) \* (algorithms without a starting labeling may have none to show yet)
  /\ Chk("valid default", e.st = NORMAL => (Valid(e.x) \/ (~HasStart(e.solver) /\ e.x = <<>>)))
  /\ Chk("starts as told", (e.start # <<>> /\ e.st = NORMAL) => e.x = e.start)
  /\ Chk("equal objects", Agrees(<<>>, Out(e)))
  /\ alg' = e.solver /\ AsNew(e.o, Out(e))
Reset(e) == Made(e) /\ Chk("reset as new", Agrees(<<>>, Out(e))) /\ AsNew(e.o, Out(e)) /\ UNCHANGED alg
Start(e) ==
  /\ Made(e)
  /\ Chk("start reported", (ShowsStart(alg) /\ e.st = NORMAL) => e.x = e.start)
  /\ Chk("reproducible start", Agrees(StartHist(e.o, e.start), Out(e)))
  /\ LStart(e.o, e.start, Out(e)) /\ UNCHANGED alg
RunIt(e) ==
  /\ Made(e) /\ Sound(e)
  /\ Chk("status", e.rt \in {0, 1, 2, 3})
  /\ Chk("reproducible", Agrees(RunHist(e.o), Out(e)))
  /\ LRun(e.o, Out(e)) /\ UNCHANGED alg
\* asking changes nothing, asking again gives the same answer - whatever the others do in between
Look(e) == Made(e) /\ Chk("same answer", Out(e) = obj[e.o].out)
Beyond(e) == Made(e) /\ Chk("no such solution", e.st # NORMAL)
Same(e) == Chk("model untouched", e.sp = sp /\ e.nf = Len(fa) /\ e.tab = tab)
TraceStep(e) ==
  CASE e.op = "model" -> LoadModel(e) /\ UNCHANGED lvars
    [] e.op = "make" -> Make(e) /\ UNCHANGED lmvars
    [] e.op = "reset" -> Reset(e) /\ UNCHANGED lmvars
    [] e.op = "start" -> Start(e) /\ UNCHANGED lmvars
    [] e.op = "infer" -> RunIt(e) /\ UNCHANGED lmvars
    [] e.op = "look" -> Look(e) /\ UNCHANGED <<lmvars, lvars>>
    [] e.op = "beyond" -> Beyond(e) /\ UNCHANGED <<lmvars, lvars>>
    [] e.op = "same" -> Same(e) /\ UNCHANGED <<lmvars, lvars>>
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel /\ LInit
TraceNext == (TEvent /\ TraceStep(Ev)) \/ (TDone /\ UNCHANGED <<lmvars, lvars>>)
=============================================================================
