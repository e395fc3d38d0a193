---------------------------- MODULE GenMoveMaker ----------------------------
(* Behaviours of the move maker as operation histories, for the driver to   *)
(* replay on the real class over models with label space SHAPE.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS LEN
VARIABLES h
SHAPE == <<2, 3, 2, 4>>
Vars == 0 .. (Len(SHAPE) - 1)
Sub == { SetToSortSeq(S, LAMBDA a, b : a < b) : S \in (SUBSET Vars) \ {{}} }
Labs(S) == { y \in [1 .. Len(S) -> 0 .. 3] : \A i \in 1 .. Len(S) : y[i] < SHAPE[S[i] + 1] }
All == [i \in 1 .. Len(SHAPE) |-> i - 1]
Op(c, S, y) == h' = Append(h, <<c, Len(S)>> \o S \o y)
GInit == h = <<>>
GNext ==
  \/ Len(h) < LEN /\ (\/ \E y \in Labs(All) : Op(1, All, y)
                      \/ Op(2, <<>>, <<>>)
                      \/ \E S \in Sub : \E c \in {3, 4} : \E y \in { RandomElement(Labs(S)) } : Op(c, S, y)
                      \/ \E S \in Sub : \E c \in {5, 6, 7} : Op(c, S, <<>>))
  \/ Len(h) = LEN /\ PrintT("@@" \o ToString(h) \o "@@") /\ h' = Append(h, <<0>>)
  \/ Len(h) = LEN + 1 /\ UNCHANGED h
=============================================================================
