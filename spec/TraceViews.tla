------------------------------ MODULE TraceViews ----------------------------
EXTENDS Views, TraceBase
VARIABLE op
\* the logarithmic or reciprocal readings of a converted value (see the driver)
Conv(e, v) ==
  CASE e.conv = "id" -> v
    [] e.conv = "log" -> e.c * v            \* exp(c v), logged as its logarithm
    [] e.conv = "rec" -> e.c \div v         \* 1 / v, logged as c times it
Step(e) ==
  CASE e.op = "start" -> op' = e.opr /\ ent' = <<>> /\ w' = e.w
    [] e.op = "def" ->
         /\ Define(e.e) /\ UNCHANGED op
    [] e.op = "see" ->    \* everything the real function says about itself
         LET s == ShapeE(e.i) t == TableE(op, e.i) IN
         /\ Chk("shape", e.s = s)
         /\ Chk("dimension", e.dim = Len(s))
         /\ Chk("size", e.size = Size(s))
         /\ Chk("values", e.t = t)
         /\ Chk("min, max, sum", "mn" \in DOMAIN e => (e.mn = MinSeq(t) /\ e.mx = MaxSeq(t) /\ e.sm = SumSeq(t) /\ e.mm = <<MinSeq(t), MaxSeq(t)>>))
         /\ UNCHANGED <<ent, w, op>>
    [] e.op = "conv" ->
         LET s == ShapeE(e.i) t == TableE(op, e.i) IN
         /\ Chk("shape of the converted", e.s = s /\ e.dim = Len(s) /\ e.size = Size(s))
         /\ Chk("converted values", e.t = [r \in 1 .. Len(t) |-> Conv(e, t[r])])
         /\ Chk("extremes of the converted", "mx" \in DOMAIN e => (e.mx = MaxSeq(e.t) /\ e.mn = MinSeq(e.t)))
         /\ UNCHANGED <<ent, w, op>>
    [] e.op = "grad" ->
         LET d == ent[e.i] IN
         /\ Chk("number of weights", e.n = Len(d.ws))
         /\ Chk("weight index", e.ix = d.ws)
         /\ Chk("gradient is the feature", e.g = d.fs)
         /\ UNCHANGED <<ent, w, op>>
    [] e.op = "weights" -> Chk("weights", e.w = w /\ e.n = Len(w)) /\ UNCHANGED <<ent, w, op>>
    [] e.op = "setw" -> SetWeight(e.k, e.v) /\ UNCHANGED op
    [] e.op = "seta" -> SetArray(e.i, e.r, e.v) /\ UNCHANGED op
    [] e.op = "total" ->  \* a model whose factors are entities of, over variables vs with labeling x
         /\ Chk("value of the model", e.v = Combine(op, [j \in 1 .. Len(e.of) |-> ValE(op, e.of[j], Sub(e.x, e.vs[j]))]))
         /\ UNCHANGED <<ent, w, op>>
    [] e.op = "rebind" -> ent' = [ent EXCEPT ![e.i].ws = e.ws] /\ UNCHANGED <<w, op>>
    [] e.op = "serial" -> Chk("length of the serialised form", e.ok) /\ UNCHANGED <<ent, w, op>>
    [] e.op = "reg" ->
         /\ Chk("regulariser", e.norm = e.asked /\ e.gotlam = e.lam)
         /\ Chk("regularisation", e.v = e.lam * (CASE e.norm = -1 -> 0 [] e.norm = 1 -> SumSeq([k \in 1 .. Len(e.w) |-> Abs(e.w[k])]) [] e.norm = 2 -> SumSeq([k \in 1 .. Len(e.w) |-> e.w[k] * e.w[k]])))
         /\ UNCHANGED <<ent, w, op>>
    [] e.op = "bounds" ->
         /\ Chk("bounds of the weights", e.glo = e.lo /\ e.ghi = e.hi)
         /\ Chk("constraints of the weights", e.m = Len(e.cs) /\ e.gcs = e.cs /\ e.gcz = e.cs)
         /\ Chk("bounds of the constraints", e.gcl = e.cl /\ e.gcu = e.cu)
         /\ UNCHANGED <<ent, w, op>>
    [] OTHER -> FALSE
TraceInit == TInit /\ op = "add" /\ ent = <<>> /\ w = <<>>
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED <<ent, w, op>>)
=============================================================================
