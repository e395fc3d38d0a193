----------------------------- MODULE UnionFind ------------------------------
(* Disjoint sets: cls[i + 1] is the smallest element of the set of i.       *)
EXTENDS OGBase
VARIABLES cls
El == 0 .. (Len(cls) - 1)
Fresh(n) == [i \in 1 .. n |-> i - 1]
Merged(c, a, b) ==
  LET x == Min2(c[a + 1], c[b + 1]) y == Max2(c[a + 1], c[b + 1])
  IN [i \in 1 .. Len(c) |-> IF c[i] = y THEN x ELSE c[i]]
Inserted(c, k) == c \o [i \in 1 .. k |-> Len(c) + i - 1]
NumSets(c) == Cardinality(SeqSet(c))
Block(c, a) == { b \in 0 .. (Len(c) - 1) : c[b + 1] = c[a + 1] }
=============================================================================
