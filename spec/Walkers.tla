------------------------------ MODULE Walkers -------------------------------
(* Walkers over coordinate tuples and random access iterators.              *)
(* w = [s |-> shape, o |-> "first" | "last" fastest, f |-> fixed positions  *)
(*      (0-based) -> value as a sequence of pairs, c |-> current tuple]     *)
(* it[i] = position of iterator i, sq = the values the iterators denote     *)
EXTENDS OGBase
VARIABLES w, it, sq
wvars == <<w, it, sq>>
FixedPos(f) == { f[i][1] : i \in 1 .. Len(f) }
FixedVal(f, d) == LET i == CHOOSE i \in 1 .. Len(f) : f[i][1] = d IN f[i][2]
FreePos(s, f) == { d \in 0 .. (Len(s) - 1) : d \notin FixedPos(f) }
Order(s, f, o) == LET p == Sorted(FreePos(s, f)) IN IF o = "first" THEN p ELSE Reverse(p)
\* the r-th tuple of the walk
Nth(s, f, o, r) ==
  LET ord == Order(s, f, o)
      dig == Unrank([i \in 1 .. Len(ord) |-> s[ord[i] + 1]], r)
  IN [d \in 1 .. Len(s) |-> IF (d - 1) \in FixedPos(f) THEN FixedVal(f, d - 1)
                            ELSE dig[CHOOSE i \in 1 .. Len(ord) : ord[i] = d - 1]]
WalkSize(s, f) == ProdSeq([i \in 1 .. Cardinality(FreePos(s, f)) |-> s[Sorted(FreePos(s, f))[i] + 1]])
Start(s, f, o) == Nth(s, f, o, 0)
\* coordinates of a tuple over the variables vs that the variables us of a scope have
Project(c, us, vs) == [i \in 1 .. Len(us) |-> c[CHOOSE k \in 1 .. Len(vs) : vs[k] = us[i]]]
At(p) == sq[p + 1]
=============================================================================
