-------------------------- MODULE TraceGraphModel ---------------------------
EXTENDS GraphModel, TraceBase

Step(e) ==
  CASE e.op = "new"      -> NewModel(e.h, e.opr, e.sp)
    [] e.op = "addvar"   -> AddVariable(e.h, e.n, e.ret)
    [] e.op = "addfn"    -> AddFunction(e.h, e.f, e.ret)
    [] e.op = "addsh"    -> AddShared(e.h, e.f, e.ret)
    [] e.op = "mutfn"    -> MutateFunction(e.h, e.id, e.f)
    [] e.op = "addfac"   -> AddFactor(e.h, e.id, e.v, e.ret)
    [] e.op = "addfacnf" -> AddFactorNonFinalized(e.h, e.id, e.v, e.ret)
    [] e.op = "finalize" -> Finalize(e.h)
    [] e.op = "copy"     -> Copy(e.src, e.dst)
    [] e.op = "assign"   -> AssignSpace(e.h, e.sp)
    [] e.op = "reject"   -> RejectedFactor(e.h, e.v)
    [] e.op = "obs"      -> ObsOK(gms[e.h], e) /\ UNCHANGED gms
    [] e.op = "eval"     -> EvalOK(gms[e.h], e) /\ UNCHANGED gms
    [] OTHER -> FALSE

TraceInit == TInit /\ gms = [h \in {} |-> 0]
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED gms)
=============================================================================
