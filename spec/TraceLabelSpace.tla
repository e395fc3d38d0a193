-------------------------- MODULE TraceLabelSpace ---------------------------
EXTENDS LabelSpace, TraceBase
Step(e) ==
  CASE e.op = "list"  -> MakeList(e.c, e.s)
    [] e.op = "uni"   -> MakeUniform(e.c, e.n, e.l)
    [] e.op = "grid"  -> MakeGrid(e.x, e.y, e.l)
    [] e.op = "dense" -> AssignDense(e.s, e.refused)
    [] e.op = "add"   -> AddVariable(e.l, e.refused, e.ret)
    [] e.op = "viewed" -> Viewed(e.s)
    [] e.op = "obs"   -> /\ ObsOK(e.nv, e.ls, e.simple)
                         /\ (cls = "grid" => e.dims = dims /\ e.k = k)
                         /\ UNCHANGED svars
    [] OTHER -> FALSE
TraceInit == TInit /\ cls = "none" /\ k = 0 /\ sp = <<>> /\ dims = <<>>
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED svars)
=============================================================================
