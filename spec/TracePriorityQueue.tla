------------------------- MODULE TracePriorityQueue -------------------------
EXTENDS PriorityQueue, TraceBase
VARIABLES fifo
qvars == <<inq, prio, mx, fifo>>
Same(e, q, pr) == \* what the real queue shows: contains, priority, size, empty, top, topPriority
  /\ Chk("size", e.sz = Cardinality(q) /\ e.em = (q = {}))
  /\ Chk("contains", \A i \in 1 .. Len(pr) : (e.co[i] = 1) = ((i - 1) \in q))
  /\ Chk("priority", \A i \in 1 .. Len(pr) : (i - 1) \in q => e.pr[i] = pr[i])
  /\ Chk("top", q # {} => e.top \in q /\ \A k \in q : ~Above(mx, pr[k + 1], pr[e.top + 1]))
  /\ Chk("top-priority", q # {} => e.tp = pr[e.top + 1])
QStep(e) ==
  CASE e.op = "pqnew" -> inq' = {} /\ prio' = [i \in 1 .. (e.n + 1) |-> 0] /\ mx' = e.mx /\ UNCHANGED fifo
    [] e.op = "push" -> Push(e.i, e.p) /\ UNCHANGED fifo
    [] e.op = "change" -> Push(e.i, e.p) /\ UNCHANGED fifo
    [] e.op = "delete" -> TakeOut(e.i) /\ UNCHANGED fifo
    [] e.op = "pop" -> Chk("popped", e.i \in Tops) /\ TakeOut(e.i) /\ UNCHANGED fifo    \* i: the item top() named just before
    [] e.op = "reset" -> inq' = {} /\ UNCHANGED <<prio, mx, fifo>>
    [] e.op = "setall" -> prio' = [i \in 1 .. Len(prio) |-> e.p] /\ UNCHANGED <<inq, mx, fifo>>
    [] e.op = "show" -> Same(e, inq, prio) /\ UNCHANGED qvars
    [] e.op = "fnew" -> fifo' = <<>> /\ UNCHANGED pvars
    [] e.op = "fpush" -> fifo' = Append(fifo, e.x) /\ UNCHANGED pvars
    [] e.op = "fpop" -> fifo' = Tail(fifo) /\ UNCHANGED pvars
    [] e.op = "fclear" -> fifo' = <<>> /\ UNCHANGED pvars
    [] e.op = "fshow" -> Chk("fifo", e.sz = Len(fifo) /\ e.em = (fifo = <<>>) /\ (fifo # <<>> => e.fr = Head(fifo))) /\ UNCHANGED qvars
    [] OTHER -> FALSE
TraceInit == TInit /\ inq = {} /\ prio = <<>> /\ mx = "min" /\ fifo = <<>>
TraceNext == (TEvent /\ QStep(Ev)) \/ (TDone /\ UNCHANGED qvars)
=============================================================================
