------------------------------ MODULE MoveMaker -----------------------------
(* The move maker: a current labeling x with its cached value en.           *)
(* Incremental updates touch only the factors of the variables that change. *)
EXTENDS ModelBase
VARIABLES x, en
mmvars == <<opr, sp, fa, tab, x, en>>
Zero == [i \in 1 .. NV |-> 0]
\* labels y (sequence) assigned to the variables S (sequence)
With(z, S, y) == [v \in 1 .. NV |-> IF \E i \in 1 .. Len(S) : S[i] = v - 1 THEN y[CHOOSE i \in 1 .. Len(S) : S[i] = v - 1] ELSE z[v]]
Touched(S) == SelectSeq(fa, LAMBDA f : SeqSet(f.v) \cap SeqSet(S) # {})
\* the value after a move, computed from the cached value and the touched factors (sums)
Delta(S, z) == ValAt(opr, Touched(S), z)
AfterMove(S, y) == en - Delta(S, x) + Delta(S, With(x, S, y))
Settings(S) == LET sh == [i \in 1 .. Len(S) |-> sp[S[i] + 1]] IN { Unrank(sh, r) : r \in 0 .. (Size(sh) - 1) }
BestOver(a, S, Y) == Best(a, SetToSeq({ Value(With(x, S, y)) : y \in Y }))
Changing(S) == { y \in Settings(S) : \A i \in 1 .. Len(S) : y[i] # x[S[i] + 1] }

Initialize(y) == Valid(y) /\ x' = y /\ en' = Value(y)
Reset == x' = Zero /\ en' = Value(Zero)
Move(S, y) == x' = With(x, S, y) /\ en' = Value(x')
Goto(z) == x' = z /\ en' = Value(z)
\* z: where an optimal move over S may go
OptimalTo(a, S, z) ==
  /\ Valid(z) /\ \A v \in Range0(NV) \ SeqSet(S) : z[v + 1] = x[v + 1]
  /\ Value(z) = BestOver(a, S, Settings(S))
MoveOptimally(a, S, z) == OptimalTo(a, S, z) /\ Goto(z)
\* the best labeling in which every variable of S changes, unless the current one is better
AllChangingTo(a, S, z) ==
  LET C == Changing(S)
  IN /\ z = x \/ \E y \in C : z = With(x, S, y)
     /\ Value(z) = IF C = {} THEN Value(x) ELSE Best(a, <<Value(x), BestOver(a, S, C)>>)
MoveAllChanging(a, S, z) == AllChangingTo(a, S, z) /\ Goto(z)
ValueKnown == en = Value(x)
=============================================================================
