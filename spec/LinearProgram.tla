---------------------------- MODULE LinearProgram ----------------------------
(* Inference through a linear program with cutting planes.                  *)
(*                                                                          *)
(* A model mixes ordinary factors, linear-constraint functions (order,      *)
(* limit, linear) and cost functions (costs, cost1, sum).  Unless they are  *)
(* asked to be soft, linear-constraint functions are hard constraints of    *)
(* the program; the others contribute their values.  The program is either  *)
(* complete from the start (tight), lacks the linear constraints (local) or *)
(* all constraints (loose); missing ones are added while they are violated. *)
EXTENDS RoofDual
C == INSTANCE Constraints
VARIABLES fk, fhard          \* kind of each factor; is its constraint met, by rank of the factor's labels
lvars == <<opr, sp, fa, tab, fk, fhard>>
CKind(k) == k \in {"order", "limit", "linear", "costs", "cost1", "sum"}
HardKind(k) == k \in {"order", "limit", "linear"}
LTable(f) == IF CKind(f.k) THEN [r \in 1 .. Size(f.s) |-> C!Value(f, Unrank(f.s, r - 1))] ELSE FTable(f)
LMet(f) == IF HardKind(f.k) THEN [r \in 1 .. Size(f.s) |-> C!Valid(f, Unrank(f.s, r - 1))] ELSE <<>>
LoadProgram(e) ==
  /\ opr' = "add" /\ sp' = e.sp
  /\ fa' = TLCEval([i \in 1 .. Len(e.fv) |-> [v |-> e.fv[i], s |-> e.fn[i].s, t |-> LTable(e.fn[i])]])
  /\ fk' = [i \in 1 .. Len(e.fn) |-> e.fn[i].k]
  /\ fhard' = TLCEval([i \in 1 .. Len(e.fn) |-> LMet(e.fn[i])])
  /\ tab' = FullTable("add", e.sp, fa')
Met(i, x) == HardKind(fk[i]) => fhard[i][Rank(fa[i].s, Sub(x, fa[i].v)) + 1]
FeasibleX(x) == \A i \in 1 .. Len(fa) : Met(i, x)
FeasibleRanks == { r \in 1 .. Len(tab) : FeasibleX(Unrank(sp, r - 1)) }
AnyHard == \E i \in 1 .. Len(fa) : HardKind(fk[i])
AnyTransfer == \E i \in 1 .. Len(fa) : fk[i] \in {"costs", "cost1", "sum"}
\* no relaxation is worse than optimising each factor on its own
Apart(a, soft, trans) == SumSeq([i \in 1 .. Len(fa) |-> IF (HardKind(fk[i]) /\ ~soft) \/ (CKind(fk[i]) /\ ~HardKind(fk[i]) /\ trans) THEN 0 ELSE Best(a, fa[i].t)])
OrdinaryPairs == Accepted /\ \A i \in 1 .. Len(fa) : ~CKind(fk[i])
Neg(t) == [i \in 1 .. Len(t) |-> -t[i]]
RelaxedN(i, y) == Relaxed(fa[i].s, Neg(fa[i].t), y)
\* twice the optimum of the local polytope of a binary model of order two (half-integral)
RelaxOpt(a) == IF a = "min" THEN RelaxMin
               ELSE LET s == [i \in 1 .. NV |-> 3] IN -MinSeq([r \in 1 .. Size(s) |-> LET y == Unrank(s, r - 1) IN SumSeq([i \in 1 .. Len(fa) |-> RelaxedN(i, Sub(y, fa[i].v))])])
ParallelFree == \A i, j \in 1 .. Len(fa) : (i # j /\ Len(fa[i].v) > 1) => SeqSet(fa[i].v) # SeqSet(fa[j].v)
\* every variable is part of an ordinary factor of order at least two
Covered == \A v \in Range0(NV) : \E i \in 1 .. Len(fa) : Len(fa[i].v) > 1 /\ v \in SeqSet(fa[i].v)
=============================================================================
