--------------------------- MODULE MCFactorGraph ----------------------------
(* Small-scope exhaustive check of the definitions of FactorGraph against   *)
(* independent characterisations, over every growth history.                *)
EXTENDS FactorGraph
CONSTANTS MaxV, MaxF
Scopes == { Sorted(S) : S \in SUBSET V }
MCInit == n = 0 /\ fs = <<>>
MCNext ==
  \/ n < MaxV /\ AddVar
  \/ Len(fs) < MaxF /\ \E s \in Scopes : AddFac(s)
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION { Neigh(v) : v \in S } IN IF T = S THEN S ELSE Close(T)
ComponentsOK == Components = { Close({v}) : v \in V }
\* leaf stripping: repeatedly drop factors that touch at most one variable shared with others
RECURSIVE Strip(_)
Strip(G) ==   \* G: set of remaining factors; a factor with <= 1 shared variable is a leaf
  LET shared(f) == { v \in Scope(f) : \E g \in G : g # f /\ Touch(v, g) }
      leaves == { f \in G : Cardinality(shared(f)) <= 1 }
  IN IF leaves = {} THEN G ELSE Strip(G \ {CHOOSE f \in leaves : TRUE})
AcyclicOK == Acyclic <=> (Strip(F) = {})
Perms == { s \in [1 .. n -> V] : SeqSet(s) = V }
ChainOK == n > 0 => (IsChain <=> \E p \in Perms : IsChainOrder(p))
Grid2(p) == << <<p[1], p[2]>>, <<p[3], p[4]>> >>
GridOK == n = 4 => (IsSmallGrid <=> \E p \in Perms : IsGridArrangement(<<p>>) \/ IsGridArrangement(Grid2(p)))
SymOK == \A u, v \in V : VV(u, v) = VV(v, u) /\ (VV(u, v) => \E f \in F : {u, v} \subseteq Scope(f))
\* adding a factor never removes a connection
Monotone == [][\A u, v \in V : VV(u, v) => (VV(u, v))']_gvars
=============================================================================
