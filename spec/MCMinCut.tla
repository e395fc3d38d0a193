------------------------------ MODULE MCMinCut ------------------------------
(* Design check: on every network with up to NE edges the minimal cut equals *)
(* the maximal flow, and adding an edge never lowers it.                    *)
EXTENDS MinCut
CONSTANTS NN, NE, CMAX
VARIABLE last
MInit == nodes = NN /\ edges = <<>> /\ last = 0
MNext == Len(edges) < NE /\ last' = MinCap /\ \E u, v \in Range0(NN), c \in 0 .. CMAX : u # v /\ AddEdge(u, v, c)
Duality == MinCap = MaxFlow
Monotone == MinCap >= last
=============================================================================
