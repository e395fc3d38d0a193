-------------------------- MODULE TracePersistence ---------------------------
EXTENDS Persistence, TraceBase
\* TRACE-INVARIANTS AllModelsOK FilesOK

Cfg(e) == [classes |-> SeqSet(e.classes), nl |-> e.nl]
\* besides the public queries: the class of the function behind every factor,
\* and which function it is (sharing survives)
FullObs(m, e) ==
  /\ Chk("queries", ObsOK(m, e))
  /\ Chk("classes", \A i \in 1 .. Len(m.fa) : e.fc[i] = FacFn(m, i).c)
  /\ Chk("sharing", \A i \in 1 .. Len(m.fa) : e.fid[i] = m.fa[i].f)
Step(e) ==
  CASE e.op = "open"     -> Open(e.h, Cfg(e), e.opr, e.sp)
    [] e.op = "save"     -> Save(e.h, e.p, e.ds)
    [] e.op = "load"     -> Load(e.h, e.p, e.ds)
    [] e.op = "noload"   -> LoadRefused(e.h, e.p, e.ds)
    [] e.op = "addvar"   -> OnModel(AddVariable(e.h, e.n, e.ret))
    [] e.op = "addfn"    -> OnModel(AddFunction(e.h, e.f, e.ret))
    [] e.op = "addsh"    -> OnModel(AddShared(e.h, e.f, e.ret))
    [] e.op = "mutfn"    -> OnModel(MutateFunction(e.h, e.id, e.f))
    [] e.op = "addfac"   -> OnModel(AddFactor(e.h, e.id, e.v, e.ret))
    [] e.op = "addfacnf" -> OnModel(AddFactorNonFinalized(e.h, e.id, e.v, e.ret))
    [] e.op = "finalize" -> OnModel(Finalize(e.h))
    [] e.op = "copy"     -> OnModel(Copy(e.src, e.dst)) /\ cfg[e.src] = cfg[e.dst]
    [] e.op = "obs"      -> FullObs(gms[e.h], e) /\ UNCHANGED <<gms, cfg, files>>
    [] e.op = "eval"     -> Chk("evaluate", EvalOK(gms[e.h], e)) /\ UNCHANGED <<gms, cfg, files>>
    \* a function and its serialised form: what is restored, and whether only
    \* the announced number of indices and values was written
    [] e.op = "ser"      -> /\ Chk("serialised size", e.ok)
                            /\ Chk("restored shape", e.s = e.f.s)
                            /\ Chk("restored values", e.t = FTable(e.f))
                            /\ UNCHANGED <<gms, cfg, files>>
    [] OTHER -> FALSE

Empty == [h \in {} |-> 0]
TraceInit == TInit /\ gms = Empty /\ cfg = Empty /\ files = Empty
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED <<gms, cfg, files>>)
=============================================================================
