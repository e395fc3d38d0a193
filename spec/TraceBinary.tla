----------------------------- MODULE TraceBinary ----------------------------
(* Solvers for binary models: two-satisfiability (conjunctions are products *)
(* of 0/1 tables) and quadratic pseudo-boolean optimisation.                *)
EXTENDS RoofDual, TraceBase
VARIABLE ran
bvars == <<opr, sp, fa, tab, ran>>
SatAccepted == \A i \in 1 .. Len(fa) : Len(fa[i].v) = 2
Sat(e) ==
  /\ Chk("two-clauses", e.ok = SatAccepted)
  /\ Chk("satisfiable iff", e.ok => e.v = MaxSeq(tab))
  /\ Chk("status", e.ok => e.ret = 1)
  /\ Chk("visitor", e.calls = IF e.ok THEN <<"begin", "end">> ELSE <<"begin">>)
  /\ ran' = TRUE
Partial(e) == [i \in 1 .. NV |-> IF e.opt[i] THEN 2 * e.x[i] ELSE 1]
Qpbo(e) ==
  /\ Chk("valid", e.st = 1 /\ Valid(e.x) /\ Len(e.opt) = NV)
  /\ Chk("value", e.v = Value(e.x))
  /\ Chk("status", e.ret = 1 /\ e.st2 # 1)
  /\ Chk("persistent", Persistent(Partial(e)))
  /\ Chk("roof dual", Relax(Partial(e)) = RelaxMin)
  /\ Chk("submodular", Submodular => e.v = MinSeq(tab))
  /\ Chk("bound", e.b <= MinSeq(tab))
  /\ Chk("share", e.share = Cardinality({ i \in 1 .. NV : e.opt[i] }))
  /\ Chk("visitor", e.calls = <<"begin", "end">>)
  /\ ran' = TRUE
BStep(e) ==
  CASE e.op = "model" -> LoadModel(e) /\ ran' = FALSE
    [] e.op = "sat" -> Sat(e) /\ UNCHANGED mvars
    [] e.op = "built" -> Chk("accepted", e.ok = Accepted) /\ UNCHANGED bvars
    \* before inference there is a labeling to report, too
    [] e.op = "before" -> Chk("before", ~ran /\ e.st = 1 /\ Valid(e.x) /\ e.v = Value(e.x) /\ e.b <= MinSeq(tab)) /\ UNCHANGED bvars
    [] e.op = "satbefore" -> Chk("before", ~ran /\ e.v \in {0, 1}) /\ UNCHANGED bvars
    [] e.op = "qpbo" -> Qpbo(e) /\ UNCHANGED mvars
    [] e.op = "same"  -> Chk("model-untouched", e.sp = sp /\ e.nf = Len(fa) /\ e.tab = tab) /\ UNCHANGED bvars
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel /\ ran = FALSE
TraceNext == (TEvent /\ BStep(Ev)) \/ (TDone /\ UNCHANGED bvars)
=============================================================================
