--------------------------- MODULE Decomposition ----------------------------
(* Decomposition of a model into sub-models: which copies of every variable *)
(* and factor live where.  A copy of a variable is <<submodel, id>>; a copy *)
(* of a factor is <<submodel, sub-variable ids>>.  "Empty" factors are       *)
(* place holders for unary factors the model does not have.                 *)
EXTENDS OGBase
VARIABLES nvar, fsc,      \* the model: number of variables, factor scopes
          nsv, nsf,       \* per sub-model: number of sub-variables / sub-factors
          vl, fl, el      \* copies of variables, of factors, of empty unaries
dvars == <<nvar, fsc, nsv, nsf, vl, fl, el>>

Fresh(n, fs) ==
  /\ nvar' = n /\ fsc' = fs /\ nsv' = <<>> /\ nsf' = <<>>
  /\ vl' = [v \in 1 .. n |-> <<>>] /\ fl' = [f \in 1 .. Len(fs) |-> <<>>] /\ el' = [v \in 1 .. n |-> <<>>]
AddSubModel == nsv' = Append(nsv, 0) /\ nsf' = Append(nsf, 0) /\ UNCHANGED <<nvar, fsc, vl, fl, el>>
AddSubVariable(m, v) ==
  /\ m < Len(nsv) /\ v < nvar
  /\ vl' = [vl EXCEPT ![v + 1] = Append(@, <<m, nsv[m + 1]>>)]
  /\ nsv' = [nsv EXCEPT ![m + 1] = @ + 1]
  /\ UNCHANGED <<nvar, fsc, nsf, fl, el>>
AddSubFactor(m, f, subs) ==
  /\ m < Len(nsv) /\ f < Len(fsc) /\ AllSeq(subs, LAMBDA s : s < nsv[m + 1])
  /\ fl' = [fl EXCEPT ![f + 1] = Append(@, <<m, subs>>)]
  /\ nsf' = [nsf EXCEPT ![m + 1] = @ + 1]
  /\ UNCHANGED <<nvar, fsc, nsv, vl, el>>
\* a place holder on copy s of variable v
AddEmptyFactor(m, v, s) ==
  /\ m < Len(nsv) /\ v < nvar /\ s < nsv[m + 1]
  /\ el' = [el EXCEPT ![v + 1] = Append(@, <<m, <<s>> >>)]
  /\ nsf' = [nsf EXCEPT ![m + 1] = @ + 1]
  /\ UNCHANGED <<nvar, fsc, nsv, vl, fl>>
\* the variable a sub-variable is a copy of
Owner(m, s) == { v \in Range0(nvar) : <<m, s>> \in SeqSet(vl[v + 1]) }
CopyOf(m, s, v) == <<m, s>> \in SeqSet(vl[v + 1])

\* renumbering sub-variables so that their order is that of the variables
NewId(m, s) ==
  LET v == CHOOSE u \in Range0(nvar) : CopyOf(m, s, u)
      pos == CHOOSE p \in 1 .. Len(vl[v + 1]) : vl[v + 1][p] = <<m, s>>
      before == SumSeq([u \in 1 .. v |-> Len(SelectSeq(vl[u], LAMBDA q : q[1] = m))])
  IN before + Len(SelectSeq(SubSeq(vl[v + 1], 1, pos - 1), LAMBDA q : q[1] = m))
Reorder ==
  /\ vl' = [v \in 1 .. nvar |-> [p \in 1 .. Len(vl[v]) |-> <<vl[v][p][1], NewId(vl[v][p][1], vl[v][p][2])>>]]
  /\ fl' = [f \in 1 .. Len(fsc) |-> [p \in 1 .. Len(fl[f]) |-> <<fl[f][p][1], [i \in 1 .. Len(fl[f][p][2]) |-> NewId(fl[f][p][1], fl[f][p][2][i])]>>]]
  /\ el' = [v \in 1 .. nvar |-> [p \in 1 .. Len(el[v]) |-> <<el[v][p][1], [i \in 1 .. Len(el[v][p][2]) |-> NewId(el[v][p][1], el[v][p][2][i])]>>]]
  /\ UNCHANGED <<nvar, fsc, nsv, nsf>>

-----------------------------------------------------------------------------
(* Consistency of the bookkeeping.                                          *)
IdsOK ==     \* every sub-variable id of a sub-model is used by exactly one copy
  \A m \in Range0(Len(nsv)) :
    LET ids == FlattenSeq([v \in 1 .. nvar |-> [p \in 1 .. Len(vl[v]) |-> IF vl[v][p][1] = m THEN vl[v][p][2] ELSE -1]])
        mine == SelectSeq(ids, LAMBDA q : q # -1)
    IN Len(mine) = nsv[m + 1] /\ SeqSet(mine) = Range0(nsv[m + 1])
ModelsOK ==
  /\ \A v \in 1 .. nvar : \A p \in 1 .. Len(vl[v]) : vl[v][p][1] < Len(nsv)
  /\ \A m \in Range0(Len(nsv)) :
       nsf[m + 1] = SumSeq([f \in 1 .. Len(fl) |-> Len(SelectSeq(fl[f], LAMBDA q : q[1] = m))])
                  + SumSeq([v \in 1 .. Len(el) |-> Len(SelectSeq(el[v], LAMBDA q : q[1] = m))])
ScopesOK ==  \* the variables of a sub-factor are the sub-model's copies of the factor's variables
  /\ \A f \in 1 .. Len(fsc) : \A p \in 1 .. Len(fl[f]) :
       LET c == fl[f][p] IN Len(c[2]) = Len(fsc[f]) /\ \A i \in 1 .. Len(c[2]) : CopyOf(c[1], c[2][i], fsc[f][i])
  /\ \A v \in 1 .. nvar : \A p \in 1 .. Len(el[v]) : Len(el[v][p][2]) = 1 /\ CopyOf(el[v][p][1], el[v][p][2][1], v - 1)
AscendingOK == \A f \in 1 .. Len(fsc) : \A p \in 1 .. Len(fl[f]) : IsStrictlyAscending(fl[f][p][2])
FactorsCovered == \A f \in 1 .. Len(fsc) : fl[f] # <<>>
VariablesCovered == \A v \in 1 .. nvar : vl[v] # <<>>
Covers == FactorsCovered /\ VariablesCovered
Consistent == IdsOK /\ ModelsOK /\ ScopesOK
\* after completion every copy of a multiply-copied variable has a unary factor
HasUnary(m, s) ==
  \/ \E f \in 1 .. Len(fl) : \E p \in 1 .. Len(fl[f]) : fl[f][p] = <<m, <<s>> >>
  \/ \E v \in 1 .. Len(el) : \E p \in 1 .. Len(el[v]) : el[v][p] = <<m, <<s>> >>
CompletionOK == \A v \in 1 .. nvar : Len(vl[v]) > 1 => \A p \in 1 .. Len(vl[v]) : HasUnary(vl[v][p][1], vl[v][p][2])

\* forests
RECURSIVE Merge2(_, _, _)
Merge2(P, ss, i) ==
  IF i > Len(ss) THEN P
  ELSE LET S == SeqSet(ss[i])
           hit == { C \in P : C \cap S # {} }
       IN Merge2(IF hit = {} THEN P ELSE (P \ hit) \cup { UNION hit }, ss, i + 1)
SubScopes(m) == FlattenSeq([f \in 1 .. Len(fl) |-> LET c == SelectSeq(fl[f], LAMBDA q : q[1] = m) IN [p \in 1 .. Len(c) |-> c[p][2]]])
SubAcyclic(m) ==
  LET ss == SubScopes(m)
      P == Merge2({ {s} : s \in Range0(nsv[m + 1]) }, ss, 1)
  IN SumSeq([i \in 1 .. Len(ss) |-> Len(ss[i])]) =
     nsv[m + 1] + Len(ss) - (Cardinality(P) + Cardinality({ i \in 1 .. Len(ss) : ss[i] = <<>> }))
AllAcyclic == \A m \in Range0(Len(nsv)) : SubAcyclic(m)
OneCopyPerModel == \A v \in 1 .. nvar : \A p, q \in 1 .. Len(vl[v]) : p # q => vl[v][p][1] # vl[v][q][1]
=============================================================================
