------------------------------ MODULE ArrayFile ------------------------------
(* Arrays in HDF5 files (marray_hdf5.hxx).  A file is a set of groups and of *)
(* data sets; a data set has a shape, the coordinate order it was created    *)
(* in, an element type, and one value per coordinate.  Contents are written  *)
(* here in the order "first coordinate fastest", whatever the stored order.  *)
EXTENDS OGBase
VARIABLE disk        \* path -> [groups, sets]; sets: <<group, name>> -> data set

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
EmptyFile == [groups |-> {""}, sets |-> [k \in {} |-> 0]]
HasFile(p) == p \in DOMAIN disk
HasGroup(p, g) == HasFile(p) /\ g \in disk[p].groups
Has(p, g, d) == HasGroup(p, g) /\ <<g, d>> \in DOMAIN disk[p].sets
Set(p, g, d) == disk[p].sets[<<g, d>>]
Taken(p, g, d) == Has(p, g, d) \/ (g = "" /\ d \in disk[p].groups)

InBox(base, sh, full) == Len(base) = Len(full) /\ Len(sh) = Len(full) /\ \A i \in 1 .. Len(full) : base[i] >= 0 /\ base[i] + sh[i] <= full[i]
Plus(a, b) == [i \in 1 .. Len(a) |-> a[i] + b[i]]
Minus(a, b) == [i \in 1 .. Len(a) |-> a[i] - b[i]]
Inside(base, sh, c) == \A i \in 1 .. Len(c) : c[i] >= base[i] /\ c[i] < base[i] + sh[i]
\* the part of a data set inside a box, and a data set with that part replaced
Slab(s, base, sh) == [k \in 1 .. Size(sh) |-> s.t[Rank(s.sh, Plus(base, Unrank(sh, k - 1))) + 1]]
WithSlab(s, base, sh, t) == [s EXCEPT !.t = [k \in 1 .. Len(s.t) |->
   LET c == Unrank(s.sh, k - 1) IN IF Inside(base, sh, c) THEN t[Rank(sh, Minus(c, base)) + 1] ELSE s.t[k]]]
\* contents enumerated in the stored order (0: last coordinate fastest)
Rv(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
InOrder(s) == [k \in 1 .. Len(s.t) |-> s.t[Rank(s.sh, IF s.o = 1 THEN Unrank(s.sh, k - 1) ELSE Rv(Unrank(Rv(s.sh), k - 1))) + 1]]

NewFile(p) == disk' = Put(disk, p, EmptyFile)      \* an existing file is emptied
MakeGroup(p, g) == HasFile(p) /\ g \notin disk[p].groups /\ disk' = [disk EXCEPT ![p].groups = @ \cup {g}]
SaveSet(p, g, d, s) == HasGroup(p, g) /\ ~Taken(p, g, d) /\ disk' = [disk EXCEPT ![p].sets = Put(@, <<g, d>>, s)]
Create(p, g, d, sh, o, ty) == SaveSet(p, g, d, [sh |-> sh, o |-> o, ty |-> ty, t |-> [k \in 1 .. Size(sh) |-> 0]])
SlabFits(p, g, d, base, sh, o) == Has(p, g, d) /\ Set(p, g, d).o = o /\ InBox(base, sh, Set(p, g, d).sh)
SaveSlab(p, g, d, base, sh, o, t) ==
  /\ SlabFits(p, g, d, base, sh, o)
  /\ disk' = [disk EXCEPT ![p].sets[<<g, d>>] = WithSlab(@, base, sh, t)]
\* refusals leave every file as it was
Refused(why) == Chk("refused without reason", why) /\ UNCHANGED disk
=============================================================================
