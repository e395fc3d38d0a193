---------------------------- MODULE MCConverter ----------------------------
(* Design-level check of the format: writing a model and reading it back    *)
(* gives the same function, no proper prefix and no text lacking one value is     *)
(* well-formed, and a permuted scope with the table permuted accordingly    *)
(* describes the same factor.                                               *)
EXTENDS Converter
CONSTANTS MaxVars, MaxLabels, MaxFactors
VARIABLE m
Vals == {1, 5, FORBID}
Scopes0(n) == { Sorted(S) : S \in SUBSET Range0(n) }
ShapeOf(lab, v) == [j \in 1 .. Len(v) |-> lab[v[j] + 1]]
\* tables: distinct entries show every permutation error
TabsFor(n) == { [k \in 1 .. n |-> 10 + k], [k \in 1 .. n |-> IF k = n THEN FORBID ELSE 7 - k] }
Init == /\ \E n \in 0 .. MaxVars : \E lab \in [1 .. n -> 1 .. MaxLabels] : m = [lab |-> lab, fac |-> <<>>]
        /\ files = <<>>
Next == /\ Len(m.fac) < MaxFactors
        /\ \E v \in Scopes0(Len(m.lab)) : \E t \in TabsFor(Size(ShapeOf(m.lab, v))) : m' = [m EXCEPT !.fac = Append(@, [v |-> v, t |-> t])]
        /\ UNCHANGED files
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
RoundTrip == LET t == TextOf(m) p == Parse(t) IN p.ok /\ p.rest = 0 /\ SameFunction(m, p) /\ p.fac = m.fac
PrefixesRefused == LET t == TextOf(m) IN \A n \in 0 .. (Len(t.w) - 1) : ~Parse([t EXCEPT !.w = SubSeq(t.w, 1, n)]).ok
RemovedWordRefused == LET t == TextOf(m) IN \A j \in 1 .. Len(t.w) : t.w[j].i = NoNat => ~Parse([t EXCEPT !.w = Drop(t.w, j)]).ok
\* a scope written in another order, with its table laid out accordingly
Perms(v) == { q \in [1 .. Len(v) -> SeqSet(v)] : SeqSet(q) = SeqSet(v) }
ScopeOrderIrrelevant == \A i \in 1 .. Len(m.fac) : LET f == m.fac[i] sh == ShapeOf(m.lab, f.v) IN
  \A q \in Perms(f.v) : LET qs == ShapeOf(m.lab, q) IN
    FactorOf(m.lab, q, [k \in 1 .. Size(qs) |-> LET y == Reverse(Unrank(Reverse(qs), k - 1)) IN f.t[Rank(sh, [a \in 1 .. Len(f.v) |-> y[PosIn(q, f.v[a])]]) + 1]]) = f
=============================================================================
