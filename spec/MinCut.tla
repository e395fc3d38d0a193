------------------------------- MODULE MinCut -------------------------------
(* Minimum s-t cuts as a state machine: a capacity network grows edge by    *)
(* edge, and every requested cut is a partition of minimal capacity.        *)
EXTENDS OGBase
VARIABLES nodes, edges      \* number of nodes; <<tail, head, capacity>> in order of insertion
cvars == <<nodes, edges>>
S == 0   T == 1
\* D: the nodes on the sink side
CutCap(D) == SumSeq([i \in 1 .. Len(edges) |-> IF edges[i][1] \notin D /\ edges[i][2] \in D THEN edges[i][3] ELSE 0])
SinkSides == { D \cup {T} : D \in SUBSET (2 .. (nodes - 1)) }
MinCap == Min({ CutCap(D) : D \in SinkSides })
NewNetwork(n) == nodes' = n /\ edges' = <<>>
AddEdge(u, v, c) == u \in Range0(nodes) /\ v \in Range0(nodes) /\ c >= 0 /\ edges' = Append(edges, <<u, v, c>>) /\ UNCHANGED nodes
\* a feasible flow and its value: the certificate half of max-flow min-cut
OutFlow(f, v) == SumSeq([i \in 1 .. Len(edges) |-> IF edges[i][1] = v THEN f[i] ELSE 0])
InFlow(f, v) == SumSeq([i \in 1 .. Len(edges) |-> IF edges[i][2] = v THEN f[i] ELSE 0])
Flows == { f \in [1 .. Len(edges) -> 0 .. MaxSeq([i \in 1 .. Len(edges) |-> edges[i][3]])] :
             /\ \A i \in 1 .. Len(edges) : f[i] <= edges[i][3]
             /\ \A v \in 2 .. (nodes - 1) : OutFlow(f, v) = InFlow(f, v) }
MaxFlow == IF edges = <<>> THEN 0 ELSE Max({ OutFlow(f, S) - InFlow(f, S) : f \in Flows })
=============================================================================
