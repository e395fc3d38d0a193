---------------------------- MODULE TraceMinCut -----------------------------
EXTENDS MinCut, TraceBase
Cut(e) ==
  LET D == { v \in 2 .. (nodes - 1) : e.seg[v + 1] = 1 } \cup {T}
  IN Chk("partition-size", Len(e.seg) = nodes) /\ Chk("minimal", CutCap(D) = MinCap)
CutStep(e) ==
  CASE e.op = "net" -> NewNetwork(e.n)
    [] e.op = "edge" -> AddEdge(e.u, e.v, e.c)
    [] e.op = "cut" -> Cut(e) /\ UNCHANGED cvars
    [] OTHER -> FALSE
TraceInit == TInit /\ nodes = 2 /\ edges = <<>>
TraceNext == (TEvent /\ CutStep(Ev)) \/ (TDone /\ UNCHANGED cvars)
=============================================================================
