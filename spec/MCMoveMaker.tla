----------------------------- MODULE MCMoveMaker ----------------------------
(* Design check of the incremental value: on every model of a family (two   *)
(* pairwise factors and a unary over three variables, all small tables) the *)
(* cached value stays the value of the labeling under every operation.      *)
EXTENDS MoveMaker
CONSTANTS VMAX
Tabs(n) == [1 .. n -> 0 .. VMAX]
MInit == /\ opr = "add" /\ sp = <<2, 2, 2>>
         /\ \E a \in { t \in Tabs(4) : t[1] = 0 }, b \in Tabs(4), c \in { t \in Tabs(2) : t[1] = 0 } :
              fa = <<[v |-> <<0, 1>>, s |-> <<2, 2>>, t |-> a], [v |-> <<1, 2>>, s |-> <<2, 2>>, t |-> b], [v |-> <<1>>, s |-> <<2>>, t |-> c]>>
         /\ tab = FullTable(opr, sp, fa) /\ x = <<0, 0, 0>> /\ en = tab[1]
Subsets == { <<0>>, <<1>>, <<2>>, <<0, 1>>, <<1, 2>>, <<0, 2>>, <<0, 1, 2>> }
Incremental(S, y) == en' = AfterMove(S, y) /\ x' = With(x, S, y)
MNext == UNCHANGED mvars /\
  \/ Reset
  \/ \E S \in Subsets : \E y \in Settings(S) : Incremental(S, y)
  \/ \E S \in Subsets : \E y \in Settings(S) : MoveOptimally("min", S, With(x, S, y))
  \/ \E S \in Subsets : \E y \in Settings(S) : MoveAllChanging("min", S, With(x, S, y))
NeverStuck == \A S \in Subsets : \E y \in Settings(S) : Value(With(x, S, y)) = BestOver("min", S, Settings(S))
=============================================================================
