----------------------------- MODULE FactorGraph ----------------------------
(* The bipartite variable/factor graph and everything that can be asked     *)
(* about it.  n variables 0..n-1; fs[f+1] is the ascending scope of factor  *)
(* f.  The queries are defined from the graph alone (components by closure, *)
(* forests by counting, paths and grids by their defining edge sets).       *)
EXTENDS OGBase

VARIABLES n, fs
gvars == <<n, fs>>

New(k) == n' = k /\ fs' = <<>>
AddVar == n' = n + 1 /\ UNCHANGED fs
AddFac(v) == IsStrictlyAscending(v) /\ (\A i \in 1 .. Len(v) : v[i] \in Range0(n)) /\ fs' = Append(fs, v) /\ UNCHANGED n

V == Range0(n)
F == Range0(Len(fs))
Scope(f) == SeqSet(fs[f + 1])
Touch(v, f) == v \in Scope(f)
FacsOf(v) == { f \in F : Touch(v, f) }
VV(u, v) == u # v /\ \E f \in F : Touch(u, f) /\ Touch(v, f)
FF(f, g) == f # g /\ Scope(f) \cap Scope(g) # {}
Neigh(v) == { u \in V : VV(u, v) }
FNeigh(f) == { g \in F : FF(f, g) }
MaxOrder == IF fs = <<>> THEN 0 ELSE MaxSeq([i \in 1 .. Len(fs) |-> Len(fs[i])])
Nth(v, k) == { f \in FacsOf(v) : Len(fs[f + 1]) = k }

\* variable components
RECURSIVE CompFold(_, _)
CompFold(P, i) ==
  IF i > Len(fs) THEN P
  ELSE LET S == SeqSet(fs[i])
           hit == { C \in P : C \cap S # {} }
       IN CompFold(IF hit = {} THEN P ELSE (P \ hit) \cup { UNION hit }, i + 1)
Components == CompFold({ {v} : v \in V }, 1)
\* a graph is a forest iff edges = nodes - components (bipartite graph: an
\* order-0 factor is a component of its own)
Acyclic ==
  LET edges == SumSeq([i \in 1 .. Len(fs) |-> Len(fs[i])])
      comps == Cardinality(Components) + Cardinality({ f \in F : fs[f + 1] = <<>> })
  IN edges = n + Len(fs) - comps
Connected == n > 0 /\ Cardinality(Components) = 1

\* second-order structure
Pairs == SelectSeq(fs, LAMBDA s : Len(s) = 2)
EdgeSet == { {s[1], s[2]} : s \in SeqSet(Pairs) }
SimpleEdges == Cardinality(EdgeSet) = Len(Pairs)
Deg(v) == Cardinality({ e \in EdgeSet : v \in e })
ChainEdges(ids) == { {ids[i], ids[i + 1]} : i \in 1 .. (Len(ids) - 1) }
IsChainOrder(ids) ==
  /\ MaxOrder <= 2 /\ Len(ids) = n /\ SeqSet(ids) = V
  /\ SimpleEdges /\ EdgeSet = ChainEdges(ids)
IsChain ==
  /\ n > 0 /\ MaxOrder <= 2
  /\ SimpleEdges /\ Cardinality(EdgeSet) = n - 1 /\ Connected
  /\ \A v \in V : Deg(v) <= 2
GridEdges(g) ==
  LET R == Len(g) C == Len(g[1])
  IN { {g[i][j], g[i + 1][j]} : i \in 1 .. (R - 1), j \in 1 .. C } \cup { {g[i][j], g[i][j + 1]} : i \in 1 .. R, j \in 1 .. (C - 1) }
IsGridArrangement(g) ==
  /\ MaxOrder <= 2 /\ Len(g) > 0 /\ \A i \in 1 .. Len(g) : Len(g[i]) = Len(g[1])
  /\ Len(g) * Len(g[1]) = n /\ UNION { SeqSet(g[i]) : i \in 1 .. Len(g) } = V
  /\ SimpleEdges /\ EdgeSet = GridEdges(g)
\* is there a grid arrangement?  decided directly for paths and four variables
IsSmallGrid == IsChain \/ (n = 4 /\ MaxOrder <= 2 /\ SimpleEdges /\ Cardinality(EdgeSet) = 4 /\ \A v \in V : Deg(v) = 2)
=============================================================================
