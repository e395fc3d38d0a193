--------------------------- MODULE PriorityQueue ----------------------------
(* A changeable priority queue: the items it contains with their priorities *)
(* and the last priority every index was ever given (kept after removal).   *)
EXTENDS OGBase
VARIABLES inq, prio, mx     \* mx: the order, "min" or "max" on top
pvars == <<inq, prio, mx>>
Prio(i) == prio[i + 1]
Above(m, a, b) == CASE m = "min" -> a < b [] m = "max" -> a > b
Tops == { i \in inq : \A k \in inq : ~Above(mx, Prio(k), Prio(i)) }
Push(i, p) == inq' = inq \cup {i} /\ prio' = [prio EXCEPT ![i + 1] = p] /\ UNCHANGED mx
TakeOut(i) == inq' = inq \ {i} /\ UNCHANGED <<prio, mx>>
=============================================================================
