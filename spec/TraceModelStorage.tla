-------------------------- MODULE TraceModelStorage -------------------------
(* Alternative storages of a model: explicit conversion, explicit storage,  *)
(* canonical views.  Every one is a list of tables over scopes.             *)
EXTENDS ModelBase, TraceBase

Scopes == { fa[i].v : i \in 1 .. Len(fa) }
HighScopes == { v \in Scopes : Len(v) # 1 }
\* pointwise combination of all factors with the scope v
Squashed(v) ==
  LET s == [i \in 1 .. Len(v) |-> sp[v[i] + 1]]
      mine == SelectSeq(fa, LAMBDA f : f.v = v)
  IN [r \in 1 .. Size(s) |-> Combine(opr, [i \in 1 .. Len(mine) |-> mine[i].t[r]])]
SameTable(got, want) == Len(got) = Len(want) /\ \A r \in 1 .. Len(want) : SameVal(got[r], want[r])

\* factor by factor the same scopes and tables
SameFactors(e) ==
  /\ Chk("nf", Len(e.v) = Len(fa)) /\ Chk("space", e.sp = sp)
  /\ \A i \in 1 .. Len(fa) : Chk("scope", e.v[i] = fa[i].v) /\ Chk("shape", e.s[i] = fa[i].s) /\ Chk("table", SameTable(e.t[i], fa[i].t))
  /\ Chk("full", SameTable(e.full, tab))
Stored(e) == \A i \in 1 .. Len(fa) : Chk("stored", SameTable(e.t[i], fa[i].t))
Canonical(e) ==
  /\ Chk("space", e.sp = sp)
  /\ Chk("count", Len(e.v) = NV + Cardinality(HighScopes))
  /\ Chk("unaries", \A v \in Range0(NV) : Cardinality({ i \in 1 .. Len(e.v) : e.v[i] = <<v>> }) = 1)
  /\ Chk("unique", Cardinality(SeqSet(e.v)) = Len(e.v))
  /\ Chk("scopes", SeqSet(e.v) = HighScopes \cup { <<v>> : v \in Range0(NV) })
  /\ \A i \in 1 .. Len(e.v) : Chk("ctable", SameTable(e.t[i], Squashed(e.v[i])))
  /\ Chk("cfull", SameTable(e.full, tab))
Step(e) ==
  CASE e.op = "model" -> LoadModel(e)
    [] e.op = "explicit" -> SameFactors(e) /\ UNCHANGED mvars
    [] e.op = "storage" -> Stored(e) /\ UNCHANGED mvars
    [] e.op = "canonical" -> Canonical(e) /\ UNCHANGED mvars
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED mvars)
=============================================================================
