---------------------------- MODULE MCCuttingPlane ---------------------------
(* The cutting-plane loop: solve with the constraints added so far, add any *)
(* non-empty set of violated constraints (at most PerIter), stop when none  *)
(* is violated.  Candidates 1..N stand for the points the back end may      *)
(* return.  Whatever is added in whatever order: the bound never gets       *)
(* better than it was, never passes the constrained optimum, the loop ends, *)
(* and it ends at the constrained optimum.                                  *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, K, Costs, PerIter
VARIABLES cost, cons, added, x, bound, ph, it
vars == <<cost, cons, added, x, bound, ph, it>>
Points == 1 .. N
Fits(p, S) == \A k \in S : p \in cons[k]
Feas(S) == { p \in Points : Fits(p, S) }
Min(S) == CHOOSE v \in S : \A w \in S : v <= w
Opt(S) == Min({ cost[p] : p \in Feas(S) })
Violated == { k \in 1 .. K : x \notin cons[k] }
Init == /\ cost \in [Points -> Costs] /\ cons \in [1 .. K -> SUBSET Points] /\ Feas(1 .. K) # {}
        /\ added = {} /\ x = 0 /\ bound = -1 /\ ph = "solve" /\ it = 0
Solve == /\ ph = "solve" /\ \E p \in Feas(added) : cost[p] = Opt(added) /\ x' = p
         /\ bound' = Opt(added) /\ it' = it + 1 /\ ph' = "search" /\ UNCHANGED <<cost, cons, added>>
Add == /\ ph = "search" /\ Violated # {}
       /\ \E S \in SUBSET Violated : S # {} /\ Cardinality(S) <= PerIter /\ added' = added \cup S
       /\ ph' = "solve" /\ UNCHANGED <<cost, cons, x, bound, it>>
Stop == ph = "search" /\ Violated = {} /\ ph' = "done" /\ UNCHANGED <<cost, cons, added, x, bound, it>>
Next == Solve \/ Add \/ Stop \/ (ph = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sound == bound <= Opt(1 .. K)
Final == ph = "done" => (x \in Feas(1 .. K) /\ cost[x] = Opt(1 .. K) /\ bound = cost[x])
Short == it <= K + 1
OnlyViolatedAdded == ph = "search" => Violated \cap added = {}
Rising == [][bound' >= bound]_vars
Ends == <>(ph = "done")
=============================================================================
