------------------------------- MODULE Greedy --------------------------------
(* Greedy construction of a labeling: one variable at a time is fixed to a  *)
(* label that is best given the variables fixed before, by the factors all  *)
(* of whose variables are fixed then.  F: the fixed variables.              *)
EXTENDS ModelBase
Usable(F, v) == SelectSeq([i \in 1 .. Len(fa) |-> i], LAMBDA i : v \in SeqSet(fa[i].v) /\ SeqSet(fa[i].v) \subseteq (F \cup {v}))
Set(x, v, k) == [x EXCEPT ![v + 1] = k]
LocalVal(x, I) == Combine(opr, [j \in 1 .. Len(I) |-> fa[I[j]].t[Rank(fa[I[j]].s, Sub(x, fa[I[j]].v)) + 1]])
BestLabels(a, F, x, v) ==
  LET I == TLCEval(Usable(F, v)) val == TLCEval([k \in Range0(sp[v + 1]) |-> LocalVal(Set(x, v, k), I)])
  IN { k \in Range0(sp[v + 1]) : \A q \in Range0(sp[v + 1]) : NotWorse(a, val[k], val[q]) }
\* configurations <<F, x>> after fixing one more variable
Extend(a, C) == UNION { { <<p[1] \cup {v}, Set(p[2], v, k)>> : k \in BestLabels(a, p[1], p[2], v) } : <<p, v>> \in { q \in C \X Range0(NV) : q[2] \notin q[1][1] } }
\* every labeling greedy construction can end with
RECURSIVE Closure(_, _, _)
Closure(a, C, k) == IF k = 0 THEN C ELSE Closure(a, TLCEval(Extend(a, C)), k - 1)
=============================================================================
