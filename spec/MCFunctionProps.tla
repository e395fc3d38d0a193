-------------------------- MODULE MCFunctionProps --------------------------
(* The library's decision procedures for the derived properties, modelled   *)
(* one to one, agree with the declarative definitions on every table of a   *)
(* bounded size: a table is the state, the procedures are the invariants.   *)
EXTENDS FunctionProps
CONSTANTS Shapes, Values
VARIABLES s, t
ShapesDef == { <<2>>, <<2, 2>>, <<3, 2>>, <<2, 3>>, <<2, 2, 2>>, <<1, 3>>, <<2, 1>> }
ShapesBig == { <<3, 3>>, <<4, 2>>, <<2, 4>>, <<2, 2, 2>>, <<3, 1, 2>>, <<2, 2, 1, 2>> }
ValuesDef == -1 .. 2
ValuesBig == { -1, 0, 1, 2 }
\* tables are built entry by entry
Init == s \in Shapes /\ t = <<>>
Next == Len(t) < Size(s) /\ \E v \in Values : t' = Append(t, v) /\ UNCHANGED s
Full == Len(t) = Size(s)
\* algorithms
AlgPotts == Len(t) <= 2 \/ \A r \in 3 .. Len(t) : IF AllEqual(Unrank(s, r - 1)) THEN t[r] = t[1] ELSE t[r] = t[2]
AlgDiff(p) == LET w == At(s, t, <<1, 0>>) IN \A x \in Labs(s) : At(s, t, x) = w * Dist(p, x)
AlgTrunc(p) ==
  LET w == At(s, t, <<1, 0>>) far == IF s[1] >= s[2] THEN <<s[1] - 1, 0>> ELSE <<0, s[2] - 1>> c == At(s, t, far)
  IN \A x \in Labs(s) : At(s, t, x) = (IF w < 0 THEN Max2(c, w * Dist(p, x)) ELSE Min2(c, w * Dist(p, x)))
PottsAgrees == (Full /\ Len(s) >= 2) => AlgPotts = PottsT(s, t)
DiffAgrees == (Full /\ Len(s) = 2 /\ s[1] > 1) => \A p \in 1 .. 2 : AlgDiff(p) = DiffT(p, s, t) /\ AlgTrunc(p) = TruncDiffT(p, s, t)
\* implications between the structures
Implications == (Full /\ Len(s) >= 2) => (PottsT(s, t) => GPottsT(s, t)) /\ (Len(s) = 2 => (GPottsT(s, t) => PottsT(s, t)))
DiffImplications == (Full /\ Len(s) = 2 /\ s[1] > 1) => \A p \in 1 .. 2 : DiffT(p, s, t) => TruncDiffT(p, s, t) \/ \E x \in Labs(s) : At(s, t, x) # 0
=============================================================================
