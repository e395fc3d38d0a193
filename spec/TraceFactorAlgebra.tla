------------------------- MODULE TraceFactorAlgebra ------------------------
EXTENDS FactorAlgebra, TraceBase
\* an operand is a slot or a scalar
Arg(a) == IF a.k = "slot" THEN slot[a.i] ELSE Scalar(a.i)
Exp(e) ==
  CASE e.op = "bin"   -> Combine2(e.f, Arg(e.a), Arg(e.b))
    [] e.op = "un"    -> Map1(e.f, Arg(e.a))
    [] e.op = "acc"   -> Accumulate(e.f, Arg(e.a), SeqSet(e.w))
    [] e.op = "fix"   -> Fix(Arg(e.a), e.w, e.l)
    [] e.op = "copy"  -> Arg(e.a)
    [] e.op = "offset" -> LET f == Arg(e.a) m == MinSeq(f.t) IN [f EXCEPT !.t = [r \in 1 .. Len(f.t) |-> f.t[r] - m]]
    [] e.op = "const" -> [v |-> e.w, s |-> e.s, t |-> [r \in 1 .. Size(e.s) |-> e.c]]
    [] e.op = "set"   -> LET f == slot[e.dst] IN [f EXCEPT !.t[Rank(f.s, e.x) + 1] = e.c]
    [] e.op = "new"   -> [v |-> e.w, s |-> e.s, t |-> e.t]
Same(got, f) == Chk("variables", got.v = f.v) /\ Chk("shape", got.s = f.s) /\ Chk("values", got.t = f.t)
Step(e) ==
  CASE e.op \in {"bin", "un", "acc", "fix", "copy", "offset", "const", "set", "new"} ->
         LET f == Exp(e) IN Chk("well formed", WellFormed(f)) /\ Same(e.r, f) /\ Put(e.dst, f)
    [] e.op = "accall" ->   \* accumulate over everything, with an optimising labeling if there is one
         LET f == Arg(e.a) IN /\ Chk("accumulated", e.val = Fold(e.f, f.t))
                              /\ Chk("labeling", "x" \notin DOMAIN e \/ (InShape(f.s, e.x) /\ f.t[Rank(f.s, e.x) + 1] = e.val)) /\ UNCHANGED slot
    [] e.op = "look" -> LET f == slot[e.i] IN Same(e.r, f) /\ Chk("copied values", e.cv = f.t)
                         /\ Chk("switched order", e.sw = [r \in 1 .. Len(f.t) |-> LET n == Len(f.s) rs == [i \in 1 .. n |-> f.s[n + 1 - i]] y == Unrank(rs, r - 1) IN f.t[Rank(f.s, [i \in 1 .. n |-> y[n + 1 - i]]) + 1]])
                         /\ Chk("labels of the model's labeling", e.sub = Sub(e.x, f.v) /\ e.fx = f.t[Rank(f.s, Sub(e.x, f.v)) + 1]) /\ UNCHANGED slot
    [] OTHER -> FALSE
TraceInit == TInit /\ slot = [i \in 0 .. 11 |-> NoFac]
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED slot)
=============================================================================
