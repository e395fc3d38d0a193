-------------------------- MODULE TraceManipulator --------------------------
EXTENDS Manipulator, TraceBase

\* reduced model without tentacles: shape and complete value table; the
\* labeling map is the merge
ModelOK(e) ==
  /\ phase = "locked"
  /\ Chk("shape", e.s = FreeShape)
  /\ Chk("table", e.t = ReducedTable)
  /\ \A i \in 1 .. Len(e.ml) : Chk("map", e.ol[i] = Merge(e.ml[i]))
\* sub-models: shapes, tables; groups are recovered from the back mapping
SubOK(e) ==
  LET comps == RestComponents
      ordered == SetToSortSeq(comps, LAMBDA a, b : Min(a) < Min(b))
  IN /\ phase = "locked"
     /\ Chk("count", e.k = IF comps = {} THEN 1 ELSE Cardinality(comps))
     /\ IF comps = {} THEN e.s = << <<>> >> /\ e.t[1] = ReducedTable
        ELSE \* every sub-model is one component, in variable order
             /\ \A j \in 1 .. e.k : Chk("subshape", e.s[j] = [i \in 1 .. Cardinality(ordered[j]) |-> sp[Sorted(ordered[j])[i] + 1]])
             /\ \A r \in 1 .. Size(FreeShape) :
                  LET y == Unrank(FreeShape, r - 1)
                      x == Merge(y)
                  IN Chk("subvalue", Combine(opr, [j \in 1 .. e.k |-> e.t[j][Rank(e.s[j], Sub(x, Sorted(ordered[j]))) + 1]]) = ReducedValue(y))
     /\ \A i \in 1 .. Len(e.sl) :
          Chk("submap", /\ AgreesWithFixed(e.ol[i])
                        /\ comps # {} => \A j \in 1 .. e.k : Sub(e.ol[i], Sorted(ordered[j])) = e.sl[i][j])
\* tentacle elimination: the reduced model is the original with the eliminated
\* variables optimised out: each reduced labeling has the best value over its
\* expansions that agree on the remaining variables -- checked as: value of the
\* expansion = reduced value, and the best reduced value = constrained optimum
TentOK(e) ==
  /\ phase = "tent"
  /\ Len(e.t) = Size(e.s)
  /\ \A r \in 1 .. Len(e.t) :
       LET x == e.x[r] IN Chk("expansion", Valid(x) /\ AgreesWithFixed(x) /\ Value(x) = e.t[r])
  /\ Chk("optimum", Best(e.acc, e.t) = ConstrainedOpt(e.acc))
  /\ Chk("subopt", Valid(e.sx) /\ AgreesWithFixed(e.sx) /\ Value(e.sx) = ConstrainedOpt(e.acc) /\ e.sv = ConstrainedOpt(e.acc))

Step(e) ==
  CASE e.op = "model"  -> LoadModel(e) /\ UNCHANGED nvars
    [] e.op = "manip"  -> Create(e.mode) /\ UNCHANGED mvars
    [] e.op = "fix"    -> Fix(e.v, e.lab) /\ UNCHANGED mvars
    [] e.op = "free"   -> Free(e.v) /\ UNCHANGED mvars
    [] e.op = "freeall" -> FreeAll /\ UNCHANGED mvars
    [] e.op = "lock"   -> Lock /\ UNCHANGED mvars
    [] e.op = "tent"   -> LockTentacles /\ UNCHANGED mvars
    [] e.op = "unlock" -> Unlock /\ UNCHANGED mvars
    [] e.op = "flags"  -> /\ e.locked = (phase # "open")
                          /\ (phase # "tent" => e.fixed = [v \in 1 .. NV |-> IF fix[v] = -1 THEN 0 ELSE 1])
                          /\ UNCHANGED <<mvars, nvars>>
    [] e.op = "built"  -> ModelOK(e) /\ UNCHANGED <<mvars, nvars>>
    [] e.op = "sub"    -> SubOK(e) /\ UNCHANGED <<mvars, nvars>>
    [] e.op = "tentbuilt" -> TentOK(e) /\ UNCHANGED <<mvars, nvars>>
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel /\ fix = <<>> /\ mode = "fix" /\ phase = "open"
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED <<mvars, nvars>>)
=============================================================================
