------------------------------- MODULE TwoSat -------------------------------
(* Two-satisfiability: a formula grows clause by clause; literals are       *)
(* <<variable, truth value>>; a clause {a, b} lets the negation of either   *)
(* literal imply the other.                                                 *)
EXTENDS OGBase
CONSTANT N
VARIABLES clauses, reach    \* reach: the transitive closure of the implications
Lits == Range0(N) \X {0, 1}
Neg(a) == <<a[1], 1 - a[2]>>
\* closure after the implications of clause <<a, b>> were added
AddArc(R, p, q) ==
  LET pre == {p} \cup { x \in Lits : <<x, p>> \in R } post == {q} \cup { y \in Lits : <<q, y>> \in R } IN TLCEval(R \cup (pre \X post))
AddClause(a, b) == clauses' = clauses \cup {<<a, b>>} /\ reach' = LET R == TLCEval(AddArc(reach, Neg(a), b)) IN AddArc(R, Neg(b), a)
True(x, a) == x[a[1]] = a[2]
Satisfies(x) == \A c \in clauses : True(x, c[1]) \/ True(x, c[2])
Satisfiable == \E x \in [Range0(N) -> {0, 1}] : Satisfies(x)
\* what a strongly-connected-component solver decides
Contradiction == \E v \in Range0(N) : <<<<v, 0>>, <<v, 1>>>> \in reach /\ <<<<v, 1>>, <<v, 0>>>> \in reach
Init == clauses = {} /\ reach = {}
Next == \E a \in Lits, b \in Lits : a[1] < b[1] /\ <<a, b>> \notin clauses /\ AddClause(a, b)
Decides == Satisfiable <=> ~Contradiction
\* contraposition: the implication graph is skew-symmetric
Skew == \A p \in reach : <<Neg(p[2]), Neg(p[1])>> \in reach
=============================================================================
