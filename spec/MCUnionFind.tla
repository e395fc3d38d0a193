---------------------------- MODULE MCUnionFind -----------------------------
(* The forest with union by rank and path compression (and compression of   *)
(* the first element only) refines the equivalence relation.                *)
EXTENDS UnionFind
CONSTANTS NMAX, START
VARIABLES parent, rank, sets
vars == <<cls, parent, rank, sets>>
MInit == cls = Fresh(START) /\ parent = Fresh(START) /\ rank = [i \in 1 .. START |-> 0] /\ sets = START
RECURSIVE Root(_, _)
Root(p, a) == IF p[a + 1] = a THEN a ELSE Root(p, p[a + 1])
RECURSIVE Path(_, _)
Path(p, a) == IF p[a + 1] = a THEN {} ELSE {a} \cup Path(p, p[a + 1])
Compress(p, a) == LET r == Root(p, a) IN [i \in 1 .. Len(p) |-> IF i - 1 \in Path(p, a) THEN r ELSE p[i]]
CompressOne(p, a) == [p EXCEPT ![a + 1] = Root(p, a)]
Find(a) == \E q \in {Compress(parent, a), CompressOne(parent, a)} : parent' = q /\ UNCHANGED <<cls, rank, sets>>
Link(p, x, y) == \* x, y roots; ties may be broken either way
  IF x = y THEN /\ parent' = p /\ UNCHANGED <<rank, sets>>
  ELSE /\ sets' = sets - 1
       /\ \/ rank[x + 1] < rank[y + 1] /\ parent' = [p EXCEPT ![x + 1] = y] /\ UNCHANGED rank
          \/ rank[x + 1] > rank[y + 1] /\ parent' = [p EXCEPT ![y + 1] = x] /\ UNCHANGED rank
          \/ rank[x + 1] = rank[y + 1] /\ parent' = [p EXCEPT ![y + 1] = x] /\ rank' = [rank EXCEPT ![x + 1] = @ + 1]
          \/ rank[x + 1] = rank[y + 1] /\ parent' = [p EXCEPT ![x + 1] = y] /\ rank' = [rank EXCEPT ![y + 1] = @ + 1]
Merge(a, b) == LET p == Compress(Compress(parent, a), b) IN Link(p, Root(parent, a), Root(parent, b)) /\ cls' = Merged(cls, a, b)
Insert(k) == /\ Len(cls) + k <= NMAX /\ cls' = Inserted(cls, k) /\ parent' = Inserted(parent, k)
             /\ rank' = rank \o [i \in 1 .. k |-> 0] /\ sets' = sets + k
Reset(n) == cls' = Fresh(n) /\ parent' = Fresh(n) /\ rank' = [i \in 1 .. n |-> 0] /\ sets' = n
MNext == (\E a \in El : Find(a) \/ \E b \in El : Merge(a, b)) \/ (\E k \in 1 .. 2 : Insert(k)) \/ (\E n \in 0 .. NMAX : Reset(n))
Refines == \A a \in El, b \in El : (Root(parent, a) = Root(parent, b)) = (cls[a + 1] = cls[b + 1])
Count == sets = NumSets(cls)
RECURSIVE Depth(_, _)
Depth(p, a) == IF p[a + 1] = a THEN 0 ELSE 1 + Depth(p, p[a + 1])
Balanced == \A a \in El : Depth(parent, a) <= rank[Root(parent, a) + 1] /\ 2 ^ rank[Root(parent, a) + 1] <= Cardinality(Block(cls, a))
=============================================================================
