----------------------------- MODULE ModelBase ------------------------------
(* A model under inference: operator, label space, factor tables and the    *)
(* complete value table, indexed by the rank of the labeling.               *)
EXTENDS OGBase
VARIABLES opr, sp, fa, tab
mvars == <<opr, sp, fa, tab>>
NoModel == opr = "add" /\ sp = <<>> /\ fa = <<>> /\ tab = <<0>>

FacTables(fv, fn) == [i \in 1 .. Len(fv) |-> [v |-> fv[i], s |-> fn[i].s, t |-> FTable(fn[i])]]
ValAt(o, fs, x) == Combine(o, [i \in 1 .. Len(fs) |-> fs[i].t[Rank(fs[i].s, Sub(x, fs[i].v)) + 1]])
FullTable(o, s, fs) == [r \in 1 .. Size(s) |-> ValAt(o, fs, Unrank(s, r - 1))]
LoadModel(e) ==
  /\ opr' = e.opr /\ sp' = e.sp /\ fa' = FacTables(e.fv, e.fn)
  /\ tab' = FullTable(e.opr, e.sp, fa')
NV == Len(sp)
Value(x) == tab[Rank(sp, x) + 1]
Valid(x) == InShape(sp, x)
Best(a, s) == IF a = "min" THEN MinSeq(s) ELSE MaxSeq(s)
Opt(a) == Best(a, tab)
NotWorse(a, p, q) == IF a = "min" THEN p <= q ELSE p >= q
\* bounds: on the far side of every value
BoundOK(a, b, v) == IF a = "min" THEN b <= v ELSE b >= v
Neighbourhood(v) == UNION { SeqSet(fa[i].v) : i \in { j \in 1 .. Len(fa) : v \in SeqSet(fa[j].v) } } \ {v}
\* variable components
RECURSIVE CompOf(_, _)
CompOf(P, i) ==
  IF i > Len(fa) THEN P
  ELSE LET S == SeqSet(fa[i].v)
           hit == { C \in P : C \cap S # {} }
       IN CompOf(IF hit = {} THEN P ELSE (P \ hit) \cup { UNION hit }, i + 1)
\* a value in thousandths, cut off where the recorder cuts it off
Scaled(v) == IF v > 1000000 THEN TooBig ELSE IF v < -1000000 THEN -TooBig ELSE 1000 * v
ModelComponents == CompOf({ {v} : v \in Range0(NV) }, 1)
ModelAcyclic ==
  SumSeq([i \in 1 .. Len(fa) |-> Len(fa[i].v)]) =
  NV + Len(fa) - (Cardinality(ModelComponents) + Cardinality({ i \in 1 .. Len(fa) : fa[i].v = <<>> }))
=============================================================================
