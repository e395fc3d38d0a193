------------------------- MODULE TraceFunctionProps ------------------------
(* Functions, factors and independent factors that are created, modified    *)
(* and asked for their derived properties.                                  *)
EXTENDS FunctionZoo, FunctionProps, TraceBase
Props(f, e) ==
  LET s == f.s t == FTable(f) n == Len(s) u == ValSet(t)
  IN /\ Chk("kind", f.k # "none") /\ Chk("shape", e.s = s)
     /\ Chk("min", e.min = MinSeq(t)) /\ Chk("max", e.max = MaxSeq(t))
     /\ Chk("minmax", "mm" \notin DOMAIN e \/ e.mm = <<MinSeq(t), MaxSeq(t)>>)
     /\ Chk("sum", e.sum = SumSeq(t)) /\ Chk("product", e.prod = ProdSeq(t))
     /\ Chk("accumulate", "acc" \notin DOMAIN e \/ e.acc = <<MinSeq(t), MaxSeq(t), SumSeq(t), SumSeq(t), ProdSeq(t)>>)
     /\ Chk("value properties", "vp" \notin DOMAIN e \/ e.vp = <<SumSeq(t), ProdSeq(t), MinSeq(t), MaxSeq(t)>>)
     /\ Chk("in order", e.ord = t) /\ Chk("switched order", e.sw = Switched(s, t))
     /\ Chk("any order", BagOf(e.any) = BagOf(t)) /\ Chk("unique", ValSet(e.uniq) = u)
     /\ Chk("with coordinate", "co" \notin DOMAIN e \/ (e.co = Labelings(s) /\ e.cv = t))
     /\ Chk("potts", "potts" \notin DOMAIN e \/ (IF f.k = "pottsg" THEN e.potts => PottsT(s, t) ELSE e.potts = PottsT(s, t)))
     /\ Chk("binary property", "bp" \notin DOMAIN e \/ e.bp = PottsT(s, t))
     /\ Chk("generalised potts", "gpotts" \notin DOMAIN e \/ (IF n \in 2 .. 4 THEN e.gpotts = GPottsT(s, t) ELSE (e.gpotts => GPottsT(s, t))))
     /\ Chk("submodular", e.sub = (IF n = 1 THEN "true" ELSE IF s = <<2, 2>> THEN (IF SubmodularT(s, t) THEN "true" ELSE "false") ELSE "undefined"))
     /\ Chk("differences", "diff" \notin DOMAIN e \/ e.diff = (IF n = 2 THEN <<DiffT(2, s, t), TruncDiffT(2, s, t), DiffT(1, s, t), TruncDiffT(1, s, t)>> ELSE <<FALSE, FALSE, FALSE, FALSE>>))
     /\ Chk("linear constraint", "lin" \notin DOMAIN e \/ e.lin = FALSE)
SameFn(a, b) == a.s = b.s /\ FTable(a) = FTable(b)
Step(e) ==
  CASE e.op = "new" -> New(e.slot, [k |-> e.f.k, s |-> e.f.s, p |-> e.f.p])
    [] e.op = "copy" -> Copy(e.slot, e.from)
    [] e.op = "set" -> Set(e.slot, e.x, e.v)
    [] e.op = "setpart" -> SetPartition(e.slot, e.i, e.v)
    [] e.op = "par" -> SetP(e.slot, e.i + 1, e.v)
    [] e.op = "props" -> Props(slot[e.slot], e) /\ UNCHANGED slot
    [] e.op = "eq" -> Chk("equality", e.eq = SameFn(slot[e.a], slot[e.b])) /\ UNCHANGED slot
    [] OTHER -> FALSE
TraceInit == TInit /\ slot = [i \in 0 .. 2 |-> NoFn]
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED slot)
=============================================================================
