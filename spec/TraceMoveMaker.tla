--------------------------- MODULE TraceMoveMaker ---------------------------
EXTENDS MoveMaker, TraceBase
Unch == UNCHANGED mvars
\* what the move maker reports after every call: its labeling and value
Rep(e) == Chk("state", e.x = x') /\ Chk("value", e.v = en')
MMStep(e) ==
  CASE e.op = "model" -> LoadModel(e) /\ x' = <<>> /\ en' = 0
    [] e.op \in {"new", "init"} -> Unch /\ Initialize(e.y) /\ Rep(e)
    [] e.op = "reset" -> Unch /\ Reset /\ Rep(e)
    [] e.op = "after" -> UNCHANGED mmvars /\ Rep(e) /\ Chk("value-after", e.r = Value(With(x, e.s, e.y)))
    [] e.op = "move" -> Unch /\ Move(e.s, e.y) /\ Chk("returned", e.r = en') /\ Rep(e)
    [] e.op = "opt" -> Unch /\ Chk("optimal", OptimalTo(e.acc, e.s, e.x)) /\ Goto(e.x) /\ Chk("returned", e.r = en') /\ Rep(e)
    [] e.op = "allchg" -> Unch /\ Chk("all-changing", AllChangingTo(e.acc, e.s, e.x)) /\ Goto(e.x) /\ Chk("returned", e.r = en') /\ Rep(e)
    [] e.op = "propose" -> UNCHANGED mmvars /\ Rep(e) /\ Chk("proposal", InShape([i \in 1 .. Len(e.s) |-> sp[e.s[i] + 1]], e.p) /\ Value(With(x, e.s, e.p)) = BestOver(e.acc, e.s, Settings(e.s)))
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel /\ x = <<>> /\ en = 0
TraceNext == (TEvent /\ MMStep(Ev)) \/ (TDone /\ UNCHANGED mmvars)
=============================================================================
