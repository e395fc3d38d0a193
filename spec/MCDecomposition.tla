--------------------------- MODULE MCDecomposition --------------------------
(* All histories of building a decomposition of small models: bookkeeping   *)
(* stays consistent, renumbering keeps every copy and sorts the ids.        *)
EXTENDS Decomposition
CONSTANTS MaxV, MaxM, MaxCopies
Models == { <<2, << <<0>>, <<0, 1>> >> >>, <<2, << <<0, 1>>, <<0, 1>> >> >>, <<3, << <<0, 1>>, <<1, 2>>, <<0, 2>> >> >>, <<1, << <<>>, <<0>> >> >> }
MCInit == \E m \in Models : /\ nvar = m[1] /\ fsc = m[2] /\ nsv = <<>> /\ nsf = <<>>
          /\ vl = [v \in 1 .. m[1] |-> <<>>] /\ fl = [f \in 1 .. Len(m[2]) |-> <<>>] /\ el = [v \in 1 .. m[1] |-> <<>>]
Copies == SumSeq(nsv) + SumSeq(nsf)
GoodSubs(m, f) == { s \in [1 .. Len(fsc[f + 1]) -> Range0(nsv[m + 1])] : \A i \in 1 .. Len(fsc[f + 1]) : CopyOf(m, s[i], fsc[f + 1][i]) }
MCNext ==
  \/ Len(nsv) < MaxM /\ AddSubModel
  \/ Copies < MaxCopies /\ \E m \in Range0(Len(nsv)), v \in Range0(nvar) : AddSubVariable(m, v)
  \/ Copies < MaxCopies /\ \E m \in Range0(Len(nsv)), f \in Range0(Len(fsc)) : \E s \in GoodSubs(m, f) : AddSubFactor(m, f, s)
  \/ Reorder
AlwaysConsistent == Consistent
\* after renumbering, ids are ordered like the variables
ReorderSorts == [][ Reorder => \A u, v \in 1 .. nvar : \A p \in 1 .. Len(vl'[u]) : \A q \in 1 .. Len(vl'[v]) :
                       (u < v /\ vl'[u][p][1] = vl'[v][q][1]) => vl'[u][p][2] < vl'[v][q][2] ]_dvars
=============================================================================
