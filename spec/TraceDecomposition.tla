------------------------- MODULE TraceDecomposition -------------------------
EXTENDS ModelBase, TraceBase
VARIABLES nvar, fsc, nsv, nsf, vl, fl, el
D == INSTANCE Decomposition
dvars == <<nvar, fsc, nsv, nsf, vl, fl, el>>

Lists(e) == /\ nsv' = e.nsv /\ nsf' = e.nsf /\ vl' = e.vl /\ fl' = e.fl /\ el' = e.el
            /\ Chk("counts", Len(e.vl) = nvar /\ Len(e.fl) = Len(fsc) /\ Len(e.nsv) = Len(e.nsf) /\ e.nm = Len(e.nsv))
            /\ UNCHANGED <<nvar, fsc>>
SameCopies(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : \A c \in SeqSet(a[i]) \cup SeqSet(b[i]) :
                      Len(SelectSeq(a[i], LAMBDA q : q = c)) = Len(SelectSeq(b[i], LAMBDA q : q = c))
ListsAre(e) == /\ Chk("nsv", e.nsv = nsv) /\ Chk("nsf", e.nsf = nsf) /\ Chk("nm", e.nm = Len(nsv))
               /\ Chk("vl", SameCopies(e.vl, vl)) /\ Chk("fl", SameCopies(e.fl, fl)) /\ Chk("el", SameCopies(e.el, el))
\* what each kind of decomposition promises (checked in the state it produced)
Promise(e) ==
  CASE e.kind = "manual" -> \A f \in 1 .. Len(fsc) :
           { c[1] : c \in SeqSet(fl[f]) } = { m \in Range0(Len(e.groups)) : (f - 1) \in SeqSet(e.groups[m + 1]) }
    [] e.kind = "tree" -> /\ D!VariablesCovered /\ D!FactorsCovered /\ Len(nsv) = 1 /\ D!AllAcyclic
                          /\ \A f \in 1 .. Len(fsc) : Len(fl[f]) = 1
    [] e.kind = "spanning" -> /\ D!FactorsCovered /\ D!AllAcyclic /\ D!OneCopyPerModel /\ D!VariablesCovered
    [] e.kind = "kfan" -> /\ D!FactorsCovered /\ D!VariablesCovered /\ D!OneCopyPerModel
                          /\ Len(nsv) = Len(e.groups)
                          /\ \A f \in 1 .. Len(fsc) : \A c \in SeqSet(fl[f]) :
                               Len(fsc[f]) = 2 => SeqSet(fsc[f]) \cap SeqSet(e.groups[c[1] + 1]) # {}
    [] e.kind = "closed" -> /\ D!FactorsCovered /\ D!VariablesCovered /\ D!OneCopyPerModel
                            /\ Len(nsv) = Len(e.groups)
                            /\ \A f \in 1 .. Len(fsc) : fsc[f] # <<>> =>
                                 { c[1] : c \in SeqSet(fl[f]) } = { m \in Range0(Len(e.groups)) : SeqSet(fsc[f]) \cap SeqSet(e.groups[m + 1]) # {} }
    [] e.kind = "closedn" -> /\ D!FactorsCovered /\ D!VariablesCovered /\ D!OneCopyPerModel /\ Len(nsv) = e.k
    [] e.kind = "kfann" -> /\ D!FactorsCovered /\ D!VariablesCovered /\ D!OneCopyPerModel
    [] e.kind = "open" -> /\ D!OneCopyPerModel /\ Len(nsv) = Len(e.groups)
                          /\ \A f \in 1 .. Len(fsc) : fsc[f] # <<>> =>
                               { c[1] : c \in SeqSet(fl[f]) } = { m \in Range0(Len(e.groups)) : SeqSet(fsc[f]) \subseteq SeqSet(e.groups[m + 1]) }
Promised(e) ==
  /\ Chk("ids", D!IdsOK) /\ Chk("models", D!ModelsOK) /\ Chk("scopes", D!ScopesOK) /\ Chk("ascending", D!AscendingOK)
  /\ Chk("promise", Promise(e))
  /\ Chk("valid", e.valid = D!Covers)
\* completion adds sub-factors only, keeps everything consistent, and gives
\* every copy of a shared variable a unary
Grows(a, b) == \A i \in 1 .. Len(a) : \A c \in SeqSet(a[i]) : Len(SelectSeq(b[i], LAMBDA q : q = c)) >= Len(SelectSeq(a[i], LAMBDA q : q = c))
Complete(e) ==
  /\ Lists(e)
  /\ Chk("c-ids", e.nsv = nsv /\ e.vl = vl)
  /\ Chk("c-grow", Grows(fl, e.fl) /\ Grows(el, e.el))
  /\ Chk("c-only-unary", \A f \in 1 .. Len(fsc) : (e.fl[f] # fl[f]) => Len(fsc[f]) = 1 /\ fl[f] # <<>>)
Completed(e) == Chk("c-models", D!ModelsOK) /\ Chk("c-scopes", D!ScopesOK) /\ Chk("c-unary", D!CompletionOK) /\ Chk("c-valid", e.valid = D!Covers)
\* weighted values of the sub-models at consistent labelings
Weighted(e) == \A i \in 1 .. Len(e.x) : Chk("weighted", e.val[i] = Value(e.x[i]))

Step(e) ==
  CASE e.op = "model" -> LoadModel(e) /\ D!Fresh(Len(e.sp), e.fv)
    [] e.op = "addsm" -> D!AddSubModel /\ Chk("ret", e.ret = Len(nsv)) /\ UNCHANGED mvars
    [] e.op = "addsv" -> D!AddSubVariable(e.m, e.v) /\ Chk("ret", e.ret = nsv[e.m + 1]) /\ UNCHANGED mvars
    [] e.op = "addsf" -> D!AddSubFactor(e.m, e.f, e.subs) /\ Chk("ret", e.ret = nsf[e.m + 1]) /\ UNCHANGED mvars
    [] e.op = "addef" -> D!AddEmptyFactor(e.m, e.v, e.s) /\ Chk("ret", e.ret = nsf[e.m + 1]) /\ UNCHANGED mvars
    [] e.op = "reorder" -> D!Reorder /\ UNCHANGED mvars
    [] e.op = "lists" -> ListsAre(e) /\ UNCHANGED <<mvars, dvars>>
    [] e.op = "isvalid" -> Chk("isvalid", e.valid = (D!Covers /\ D!Consistent)) /\ UNCHANGED <<mvars, dvars>>
    [] e.op = "decomp" -> Lists(e) /\ UNCHANGED mvars
    [] e.op = "promise" -> Promised(e) /\ UNCHANGED <<mvars, dvars>>
    [] e.op = "completed" -> Completed(e) /\ UNCHANGED <<mvars, dvars>>
    [] e.op = "complete" -> Complete(e) /\ UNCHANGED mvars
    [] e.op = "weighted" -> Weighted(e) /\ UNCHANGED <<mvars, dvars>>
    [] e.op = "refuse" -> /\ Chk("refuse", e.threw = (\E f \in 1 .. Len(fsc) : Len(fsc[f]) > 2)) /\ UNCHANGED <<mvars, dvars>>
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel /\ nvar = 0 /\ fsc = <<>> /\ nsv = <<>> /\ nsf = <<>> /\ vl = <<>> /\ fl = <<>> /\ el = <<>>
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED <<mvars, dvars>>)
=============================================================================
