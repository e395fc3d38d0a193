--------------------------- MODULE TraceConverter ---------------------------
EXTENDS Converter, TraceBase
Step(e) ==
  CASE e.op = "text"   -> WriteText(e.n, [head |-> e.head, w |-> e.w])
    [] e.op = "model"  -> WriteModel(e.n, [lab |-> e.lab, fac |-> e.fac], e.known)
    [] e.op = "uai2h5" -> ToModel(e.n, e.out, e.done, [lab |-> e.lab, fac |-> e.fac])
    [] e.op = "h52uai" -> ToText(e.n, e.out, e.done, [head |-> e.head, w |-> e.w])
    [] e.op = "argc"   -> Chk("wrong number of arguments is refused", e.rc # 0) /\ UNCHANGED files
    [] OTHER -> FALSE
TraceInit == TInit /\ files = [h \in {} |-> 0]
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED files)
=============================================================================
