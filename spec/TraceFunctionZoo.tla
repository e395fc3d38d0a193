--------------------------- MODULE TraceFunctionZoo -------------------------
EXTENDS FunctionZoo, TraceBase
Observe(e) ==
  LET f == slot[e.slot]
  IN /\ Chk("kind", f.k # "none") /\ Chk("dim", e.dim = Len(f.s)) /\ Chk("shape", e.s = f.s) /\ Chk("size", e.size = Size(f.s))
     /\ Chk("table", e.t = FTable(f))
Probe(e) ==
  LET f == slot[e.slot]
  IN /\ Chk("dim", e.dim = Len(f.s)) /\ Chk("shape", e.s = f.s) /\ Chk("size", e.size = Size(f.s))
     /\ \A i \in 1 .. Len(e.x) : Chk("value", e.val[i] = FVal(f, e.x[i]))
Step(e) ==
  CASE e.op = "new" -> New(e.slot, [k |-> e.f.k, s |-> e.f.s, p |-> e.f.p])
    [] e.op = "copy" -> Copy(e.slot, e.from)
    [] e.op = "set" -> Set(e.slot, e.x, e.v)
    [] e.op = "setpart" -> SetPartition(e.slot, e.i, e.v)
    [] e.op = "par" -> SetP(e.slot, e.i + 1, e.v)
    [] e.op = "resize" -> Resize(e.slot, e.n, e.v)
    [] e.op = "obs" -> Observe(e) /\ UNCHANGED slot
    [] e.op = "probe" -> Probe(e) /\ UNCHANGED slot
    [] e.op = "same" -> Chk("same", e.a = e.b) /\ UNCHANGED slot
    [] OTHER -> FALSE
TraceInit == TInit /\ slot = [i \in 0 .. 2 |-> NoFn]
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED slot)
=============================================================================
