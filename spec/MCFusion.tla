------------------------------ MODULE MCFusion -------------------------------
(* Fusion-based inference with exact fusions on small models of three       *)
(* variables with three labels: it never gets worse, it stops, and when it  *)
(* has tried every proposal in vain it is optimal among all expansions (or  *)
(* swaps).  Models need not be metric: exact fusions make no such demand.   *)
EXTENDS Fusion
CONSTANTS Unaries, Pairs, GENS
VARIABLES x, gen, k, idle, best
vars == <<opr, sp, fa, tab, sol, x, gen, k, idle, best>>
UTab == <<<<0, 0, 0>>, <<0, 2, 1>>, <<3, 0, 1>>>>
PTab == <<<<0, 2, 2, 2, 0, 2, 2, 2, 0>>, <<0, 1, 2, 1, 0, 1, 2, 1, 0>>, <<1, 0, 3, -2, 1, 0, 0, 2, -1>>, <<0, 0, 0, 0, 0, 0, 0, 0, 0>>>>
Un(v, t) == [v |-> <<v>>, s |-> <<3>>, t |-> t]
Pr(u, v, t) == [v |-> <<u, v>>, s |-> <<3, 3>>, t |-> t]
Swaps == <<<<0, 1>>, <<0, 2>>, <<1, 2>>>>
Proposal == IF gen = "alpha" THEN Expand(x, k % 3) ELSE Swap(x, Swaps[(k % 3) + 1][1], Swaps[(k % 3) + 1][2])
Init == /\ opr = "add" /\ sp = <<3, 3, 3>> /\ sol = NoSolver
        /\ \E a, b \in 1 .. Unaries : \E p, q, r \in 1 .. Pairs :
             fa = <<Un(0, UTab[a]), Un(1, UTab[b]), Pr(0, 1, PTab[p]), Pr(0, 2, PTab[q]), Pr(1, 2, PTab[r])>>
        /\ tab = FullTable(opr, sp, fa)
        /\ x \in { Unrank(sp, r - 1) : r \in {1, 6, 14, 22} }
        /\ gen \in GENS /\ k = 0 /\ idle = 0 /\ best = Value(x)
Stopped == idle >= Patience(gen)
Next == /\ ~Stopped
        /\ LET p == TLCEval(Proposal)
               m == TLCEval(Min({ Value(y) : y \in Fusions(x, p) }))
           IN \E y \in { z \in Fusions(x, p) : Value(z) = m } :
                /\ MoveAllowed("min", x, p, y)
                /\ x' = IF m < Value(x) THEN y ELSE x
                /\ idle' = IF m < Value(x) THEN 0 ELSE idle + 1
                /\ best' = m
        /\ k' = k + 1 /\ UNCHANGED <<opr, sp, fa, tab, sol, gen>>
ProposalsValid == ProposalOK(gen, k, x, Proposal)
Never == best = Value(x)
Descending == [][Value(x') <= Value(x)]_vars
LocallyBest == Stopped => IF gen = "alpha" THEN ExpansionOpt("min", x) ELSE SwapOpt("min", x)
Terminates == k <= 60
=============================================================================
