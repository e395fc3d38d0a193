----------------------------- MODULE MCRoofDual ------------------------------
(* All models with given pairwise and unary tables on three variables:      *)
(* minimisers of the relaxation are persistent, its minimum is a lower      *)
(* bound, and it is tight for submodular models.                            *)
EXTENDS RoofDual
CONSTANTS Unaries, Pairs
Un(v, t) == [v |-> <<v>>, s |-> <<2>>, t |-> t]
Pr(u, v, t) == [v |-> <<u, v>>, s |-> <<2, 2>>, t |-> t]
UTab == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<3, 0>>>>
PTab == <<<<0, 0, 0, 0>>, <<0, 1, 1, 0>>, <<1, 0, 0, 1>>, <<2, -1, 0, 0>>, <<-1, 0, 0, -2>>, <<0, 3, 0, 0>>, <<0, -2, 1, 0>>>>
Init == /\ opr = "add" /\ sp = <<2, 2, 2>>
        /\ \E a, b, c \in 1 .. Unaries : \E p, q, r \in 1 .. Pairs :
             fa = <<Un(0, UTab[a]), Un(1, UTab[b]), Un(2, UTab[c]), Pr(0, 1, PTab[p]), Pr(0, 2, PTab[q]), Pr(1, 2, PTab[r])>>
        /\ tab = FullTable(opr, sp, fa)
Next == UNCHANGED mvars
S3 == <<3, 3, 3>>
Persistency == LET m == RelaxMin IN \A r \in 1 .. 27 : Relax(Unrank(S3, r - 1)) = m => Persistent(Unrank(S3, r - 1))
LowerBound == RelaxMin <= 2 * MinSeq(tab)
Tight == Submodular => RelaxMin = 2 * MinSeq(tab)
=============================================================================
