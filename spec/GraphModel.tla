----------------------------- MODULE GraphModel -----------------------------
(* State machine of opengm::GraphicalModel (graphicalmodel.hxx): models are *)
(* built action by action, copied and assigned between handles, and         *)
(* observed through their public queries.                                   *)
(*   gms[h] = [op, sp, fn, fa, adj]                                         *)
(*     op   combination operator        sp   number of labels per variable  *)
(*     fn   stored functions            fa   factors [f |-> id, v |-> vars] *)
(*     adj  variable -> set of factor indices (updated by addFactor and     *)
(*          finalize, not by addFactorNonFinalized)                         *)
EXTENDS OGBase

VARIABLE gms

Handles == DOMAIN gms
EmptyModel(op, sp) == [op |-> op, sp |-> sp, fn |-> <<>>, fa |-> <<>>,
                       adj |-> [v \in 1 .. Len(sp) |-> {}]]

----------------------------------------------------------------------------
(* Derived quantities (what the queries must return).                       *)
NumVars(m) == Len(m.sp)
FacFn(m, i) == m.fn[m.fa[i].f + 1]                         \* i is 1-based
FactorValue(m, i, x) == FVal(FacFn(m, i), Sub(x, m.fa[i].v))
Evaluate(m, x) == Combine(m.op, [i \in 1 .. Len(m.fa) |-> FactorValue(m, i, x)])
Order(m) == IF m.fa = <<>> THEN 0 ELSE Max({ Len(m.fa[i].v) : i \in 1 .. Len(m.fa) })
TrueAdj(m) == [v \in 1 .. Len(m.sp) |->
                 { i - 1 : i \in { j \in 1 .. Len(m.fa) : \E p \in 1 .. Len(m.fa[j].v) : m.fa[j].v[p] = v - 1 } }]
LegalFactor(m, fid, vars) ==
  /\ fid >= 0 /\ fid < Len(m.fn)
  /\ IsStrictlyAscending(vars)
  /\ \A i \in 1 .. Len(vars) : vars[i] >= 0 /\ vars[i] < Len(m.sp)
  /\ Len(m.fn[fid + 1].s) = Len(vars)
  /\ \A i \in 1 .. Len(vars) : m.fn[fid + 1].s[i] = m.sp[vars[i] + 1]

----------------------------------------------------------------------------
(* Actions.                                                                 *)
NewModel(h, op, sp) ==
  gms' = [k \in Handles \cup {h} |-> IF k = h THEN EmptyModel(op, sp) ELSE gms[k]]

AddVariable(h, n, ret) ==
  /\ ret = Len(gms[h].sp)
  /\ gms' = [gms EXCEPT ![h].sp = Append(@, n), ![h].adj = Append(@, {})]

\* addFunction always stores a new copy
AddFunction(h, f, ret) ==
  /\ ret = Len(gms[h].fn)
  /\ gms' = [gms EXCEPT ![h].fn = Append(@, f)]

\* addSharedFunction must return a stored function of the same class with the
\* same parameters if there is one; it may return one with the same values;
\* otherwise it stores a new function
SameFunction(f, g) == f.c = g.c /\ f.s = g.s /\ FTable(f) = FTable(g)
AddShared(h, f, ret) ==
  LET must == { i \in 1 .. Len(gms[h].fn) : gms[h].fn[i] = f }
      may  == { i \in 1 .. Len(gms[h].fn) : SameFunction(gms[h].fn[i], f) }
  IN \/ (ret + 1) \in may /\ UNCHANGED gms
     \/ must = {} /\ AddFunction(h, f, ret)

\* assignment through the reference returned by getFunction: every factor of
\* this model that refers to the function sees it, no other model does
MutateFunction(h, fid, f) ==
  /\ f.s = gms[h].fn[fid + 1].s
  /\ gms' = [gms EXCEPT ![h].fn[fid + 1] = f]

AddFactor(h, fid, vars, ret) ==
  /\ LegalFactor(gms[h], fid, vars)
  /\ ret = Len(gms[h].fa)
  /\ gms' = [gms EXCEPT ![h].fa = Append(@, [f |-> fid, v |-> vars]),
                        ![h].adj = [v \in 1 .. Len(@) |->
                           IF (v - 1) \in SeqSet(vars) THEN @[v] \cup {ret} ELSE @[v]]]
AddFactorNonFinalized(h, fid, vars, ret) ==
  /\ LegalFactor(gms[h], fid, vars)
  /\ ret = Len(gms[h].fa)
  /\ gms' = [gms EXCEPT ![h].fa = Append(@, [f |-> fid, v |-> vars])]
Finalize(h) == gms' = [gms EXCEPT ![h].adj = TrueAdj(gms[h])]

\* copy construction, assignment, assignment from another function type list
Copy(src, dst) ==
  gms' = [k \in Handles \cup {dst} |-> IF k = dst THEN gms[src] ELSE gms[k]]
\* assign(space): forget everything, start over
AssignSpace(h, sp) == gms' = [gms EXCEPT ![h] = EmptyModel(gms[h].op, sp)]
\* an illegal factor (unsorted or out of range variables) is refused by an exception
RejectedFactor(h, vars) ==
  /\ ~(IsStrictlyAscending(vars) /\ \A i \in 1 .. Len(vars) : vars[i] >= 0 /\ vars[i] < Len(gms[h].sp))
  /\ gms' = [k \in Handles \ {h} |-> gms[k]]      \* the driver discards the model afterwards

----------------------------------------------------------------------------
(* What the queries of a model m must have answered (observation e).        *)
ObsOK(m, e) ==
  /\ e.nv = NumVars(m)
  /\ e.sp = m.sp
  /\ e.nf = Len(m.fa)
  /\ e.ord = Order(m)
  /\ (m.sp # <<>> => e.maxl = MaxSeq(m.sp))
  /\ \A i \in 1 .. Len(m.fa) :
       /\ e.fv[i] = m.fa[i].v
       /\ e.fs[i] = FacFn(m, i).s
       /\ e.fsz[i] = Size(FacFn(m, i).s)
       /\ e.ft[i] = FTable(FacFn(m, i))
  /\ \A v \in 1 .. Len(m.sp) :
       /\ IsStrictlyAscending(e.adj[v])
       /\ SeqSet(e.adj[v]) = m.adj[v]
  /\ e.nfn = Len(m.fn)
EvalOK(m, e) == \A i \in 1 .. Len(e.x) : SameVal(e.val[i], Evaluate(m, e.x[i]))

----------------------------------------------------------------------------
(* Invariants of the design.                                                *)
ModelOK(m) ==
  /\ Len(m.adj) = Len(m.sp)
  /\ \A i \in 1 .. Len(m.fa) : LegalFactor(m, m.fa[i].f, m.fa[i].v)
  \* adjacency never claims a factor that is not there
  /\ \A v \in 1 .. Len(m.sp) : m.adj[v] \subseteq TrueAdj(m)[v]
AllModelsOK == \A h \in Handles : ModelOK(gms[h])
=============================================================================
