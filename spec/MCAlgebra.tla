------------------------------ MODULE MCAlgebra -----------------------------
(* The laws the library builds on, over a small domain with infinities, and *)
(* the accumulator against the whole history it was fed.                    *)
EXTENDS Algebra
CONSTANTS LEN
VARIABLE hist
D == {NEGINF, -2, 0, 1, 3, POSINF}
vars == <<acc, tri, hist>>
MInit == hist = <<>> /\ tri \in [1 .. 2 -> {-1, 0, 1}] /\ \E o \in {"min", "max", "add"} : acc = [o |-> o, v |-> NeutralOf(o), st |-> <<>>, n |-> 0]
Fin == {-2, 0, 1, 3}
MNext == \/ /\ Len(hist) < LEN /\ UNCHANGED tri
            /\ \E v \in (IF acc.o = "add" THEN Fin ELSE D) : Feed(v, <<Len(hist)>>) /\ hist' = Append(hist, v)
         \/ /\ Clear /\ hist' = <<>> /\ UNCHANGED tri
         \/ /\ hist = <<>> /\ UNCHANGED <<acc, hist>> /\ (\E s \in {-1, 0, 1} : TriAnd(1, s) \/ TriSet(1, s)) 
\* the accumulator equals the fold of its history and its argument attains it
Folded == acc.v = FoldLeft(LAMBDA a, b : Ext(acc.o, a, b), NeutralOf(acc.o), hist)
Attained == Optimising(acc.o) /\ hist # <<>> => hist[acc.st[1] + 1] = acc.v /\ \A i \in 1 .. Len(hist) : AtLeastAsGood(acc.o, acc.v, hist[i])
ASSUME \A o \in {"min", "max"} : \A a, b, c \in D :
  /\ Ext(o, a, b) = Ext(o, b, a) /\ Ext(o, a, Ext(o, b, c)) = Ext(o, Ext(o, a, b), c)
  /\ Ext(o, a, NeutralOf(o)) = a /\ Inv(o, a, INeutralOf(o)) = a
  /\ (Ext(o, a, b) = a) = AtLeastAsGood(o, a, b)
ASSUME \A o \in {"add", "mul"} : \A a, b \in Fin : /\ Ext(o, a, NeutralOf(o)) = a
  /\ ((o = "add" \/ b # 0) => Inv(o, Ext(o, a, b), b) = a)
ASSUME \A a, b, c \in {-1, 0, 1} : Evidence(Evidence(a, b), c) = Evidence(Evidence(a, c), b) /\ Evidence(a, -1) = a /\ Evidence(a, 0) = 0
=============================================================================
