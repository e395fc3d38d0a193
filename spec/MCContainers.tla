--------------------------- MODULE MCContainers -----------------------------
(* (1) Insertion by lower bound keeps a set sorted and duplicate free and   *)
(*     membership equal to mathematical membership, for every comparison.   *)
(* (2) A sequence with STACK inline cells and a heap beyond, two objects,   *)
(*     copies and assignments: the storage never leaks, is never freed      *)
(*     twice, never overflows, and holds the abstract sequence.             *)
EXTENDS Containers
CONSTANTS KEYS, STACK, MAXLEN, BLOCKS
VARIABLES st, heap, math
\* st[o] = [n |-> size, cap |-> capacity, at |-> 0 inline | block id, in |-> inline cells]
\* heap: block id -> cells ; allocated blocks only
vars == <<sets, seqs, st, heap, math>>
Objs == {1, 2}
NewCells(n) == [i \in 1 .. n |-> -1]
MInit == /\ sets = [d \in 0 .. 2 |-> [d |-> d, s |-> <<>>]] /\ math = [d \in 0 .. 2 |-> {}]
         /\ seqs = [o \in Objs |-> <<>>] /\ heap = <<>>
         /\ st = [o \in Objs |-> [n |-> 0, cap |-> STACK, at |-> 0, in |-> NewCells(STACK)]]
Free == { b \in 1 .. BLOCKS : b \notin DOMAIN heap }
Cells(o, h, t) == IF t[o].at = 0 THEN t[o].in ELSE h[t[o].at]
\* write cells of o
SetCells(o, c, h, t) == IF t[o].at = 0 THEN <<h, [t EXCEPT ![o].in = c]>> ELSE <<[h EXCEPT ![t[o].at] = c], t>>
\* grow the capacity of o to m: allocate, copy, free the old block
Grow(o, m, h, t) ==
  IF m <= t[o].cap THEN <<h, t>>
  ELSE LET b == Min({ x \in 1 .. BLOCKS : x \notin DOMAIN h })
           old == Cells(o, h, t)
           nc == [i \in 1 .. m |-> IF i <= t[o].n THEN old[i] ELSE -1]
           h1 == [x \in (DOMAIN h \cup {b}) \ (IF t[o].cap > STACK THEN {t[o].at} ELSE {}) |-> IF x = b THEN nc ELSE h[x]]
       IN <<h1, [t EXCEPT ![o].cap = m, ![o].at = b]>>
Resize(o, m, h, t) == LET g == Grow(o, m, h, t) IN <<g[1], [g[2] EXCEPT ![o].n = m]>>
\* cells at and beyond the size are not observable: forget them
Blank(n, c) == [i \in DOMAIN c |-> IF i <= n THEN c[i] ELSE -1]
Live(t, b) == Max({0} \cup { t[o].n : o \in { p \in Objs : t[p].at = b } })
Commit(p) == /\ heap' = [b \in DOMAIN p[1] |-> Blank(Live(p[2], b), p[1][b])]
             /\ st' = [o \in Objs |-> [p[2][o] EXCEPT !.in = Blank(IF p[2][o].at = 0 THEN p[2][o].n ELSE 0, @)]]
PushBack(o, v) ==
  /\ st[o].n < MAXLEN
  /\ LET g == Grow(o, IF st[o].n = st[o].cap THEN 2 * st[o].cap ELSE st[o].cap, heap, st)
         c == [Cells(o, g[1], g[2]) EXCEPT ![st[o].n + 1] = v]
         w == SetCells(o, c, g[1], g[2])
     IN Commit(<<w[1], [w[2] EXCEPT ![o].n = @ + 1]>>)
  /\ seqs' = [seqs EXCEPT ![o] = Append(@, v)] /\ UNCHANGED <<sets, math>>
Reserve(o, m) == Commit(Grow(o, m, heap, st)) /\ UNCHANGED <<sets, math, seqs>>
Shrink(o, m) == m <= st[o].n /\ Commit(Resize(o, m, heap, st)) /\ seqs' = [seqs EXCEPT ![o] = SubSeq(@, 1, m)] /\ UNCHANGED <<sets, math>>
Clear(o) ==
  /\ Commit(<<[x \in DOMAIN heap \ (IF st[o].cap > STACK THEN {st[o].at} ELSE {}) |-> heap[x]],
               [st EXCEPT ![o].n = 0, ![o].cap = STACK, ![o].at = 0]>>)
  /\ seqs' = [seqs EXCEPT ![o] = <<>>] /\ UNCHANGED <<sets, math>>
Assign(o, p) ==
  /\ o # p
  /\ LET r == Resize(o, st[p].n, heap, st)
         src == Cells(p, heap, st)
         c == [i \in DOMAIN Cells(o, r[1], r[2]) |-> IF i <= st[p].n THEN src[i] ELSE Cells(o, r[1], r[2])[i]]
     IN Commit(SetCells(o, c, r[1], r[2]))
  /\ seqs' = [seqs EXCEPT ![o] = seqs[p]] /\ UNCHANGED <<sets, math>>
SetIns(d, x) == sets' = [sets EXCEPT ![d].s = Ins(d, @, x)] /\ math' = [math EXCEPT ![d] = IF \E y \in @ : Equiv(d, y, x) THEN @ ELSE @ \cup {x}] /\ UNCHANGED <<seqs, st, heap>>
SetDel(d, x) == /\ sets' = [sets EXCEPT ![d].s = IF Member(d, @, x) THEN DelRange(@, LowerPos(d, @, x), LowerPos(d, @, x) + 1) ELSE @]
                /\ math' = [math EXCEPT ![d] = { y \in @ : ~Equiv(d, y, x) }] /\ UNCHANGED <<seqs, st, heap>>
SeqNext == \E o \in Objs : (\E v \in 0 .. 1 : PushBack(o, v)) \/ (\E m \in 1 .. MAXLEN : Reserve(o, m)) \/ (\E m \in 0 .. MAXLEN : Shrink(o, m)) \/ Clear(o) \/ (\E p \in Objs : Assign(o, p))
SetNext == \E d \in 0 .. 2, x \in KEYS : SetIns(d, x) \/ SetDel(d, x)
MNextSeq == SeqNext
MNextSet == SetNext
Holds == \A o \in Objs : st[o].n = Len(seqs[o]) /\ \A i \in 1 .. st[o].n : Cells(o, heap, st)[i] = seqs[o][i]
NoLeak == DOMAIN heap = { st[o].at : o \in Objs } \ {0}
OwnBlocks == \A o \in Objs : (st[o].at # 0) = (st[o].cap > STACK) /\ (st[o].at # 0 => Len(heap[st[o].at]) = st[o].cap)
NotShared == st[1].at # 0 => st[1].at # st[2].at
SortedSets == SetsOK /\ \A d \in 0 .. 2 : SeqSet(sets[d].s) = math[d] /\ \A x \in KEYS : LET p == LowerPos(d, sets[d].s, x) q == UpperPos(d, sets[d].s, x) IN p <= q /\ q <= p + 1 /\ (q = p + 1) = (\E y \in math[d] : Equiv(d, x, y))
=============================================================================
