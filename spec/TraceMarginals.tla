--------------------------- MODULE TraceMarginals ---------------------------
EXTENDS Marginals, TraceBase
Marg(e) ==
  /\ Chk("status", e.st = 1)
  /\ Chk("scope", e.vars = e.got /\ Len(e.t) = Size(MShape(e.vars)) /\ e.shape = MShape(e.vars))
  /\ LET w == MargTable(e.vars, e.kind) IN
     IF e.kind = "sum" THEN
        LET z == MSum IN
        IF e.norm THEN \A i \in 1 .. Len(w) : Chk("distribution", SumOK(e.t[i], w[i], z))
        ELSE \A i \in 1 .. Len(w) : Chk("proportional", Abs(e.t[i] * w[1] - e.t[1] * w[i]) <= w[1] + w[i])
     ELSE IF opr = "add" THEN Chk("marginals-up-to-shift", ShiftOK(e.t, w)) /\ Chk("normalised", e.norm => Best(e.kind, e.t) = 0)
     ELSE Chk("order", OrderOK(e.t, w)) /\ Chk("ratio", e.norm => RatioOK(e.t, w, Opt(e.kind)))
\* a labeling that is best among those with the given labels
Given(e) ==
  /\ Chk("status", e.st = 1 /\ Valid(e.x))
  /\ Chk("given labels kept", \A i \in 1 .. Len(e.v) : e.x[e.v[i] + 1] = e.l[i])
  /\ Chk("best completion", LET v == Value(e.x) IN \A r \in 1 .. Len(tab) : (\A i \in 1 .. Len(e.v) : Unrank(sp, r - 1)[e.v[i] + 1] = e.l[i]) => NotWorse(e.kind, v, tab[r]))
\* every label is optimal for its variable alone
Modes(e) ==
  /\ Chk("status", e.st = 1 /\ Valid(e.x))
  /\ \A i \in 1 .. NV : LET w == MargTable(<<i - 1>>, e.kind) IN Chk("mode", w[e.x[i] + 1] = Best(e.kind, w))
Same(e) == Chk("model-untouched", e.sp = sp /\ e.nf = Len(fa) /\ e.tab = tab)
MStep(e) ==
  CASE e.op = "model" -> LoadModel(e)
    [] e.op = "acyclic" -> Chk("acyclic", ModelAcyclic) /\ UNCHANGED mvars
    [] e.op = "marg" -> Marg(e) /\ UNCHANGED mvars
    [] e.op = "given" -> Given(e) /\ UNCHANGED mvars
    [] e.op = "modes" -> Modes(e) /\ UNCHANGED mvars
    [] e.op = "same" -> Same(e) /\ UNCHANGED mvars
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel
TraceNext == (TEvent /\ MStep(Ev)) \/ (TDone /\ UNCHANGED mvars)
=============================================================================
