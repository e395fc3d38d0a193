--------------------------- MODULE TraceUnionFind ---------------------------
(* Union-find and the enumeration of set partitions.                        *)
EXTENDS UnionFind, TraceBase
uvars == <<cls>>
Reported(e, c) == \* e.r: root of every element, e.cr: the same from the const query, e.reps: representatives, e.lab: element labeling, e.rl: representative labeling as pairs
  LET n == Len(c) IN
  /\ Chk("elements", e.n = n)
  /\ Chk("sets", e.k = NumSets(c))
  /\ Chk("roots", Len(e.r) = n /\ \A i \in 1 .. n : e.r[i] \in 0 .. (n - 1) /\ c[e.r[i] + 1] = c[i] /\ (\A j \in 1 .. n : c[i] = c[j] => e.r[i] = e.r[j]))
  /\ Chk("const-find", e.cr = e.r)
  /\ Chk("representatives", SeqSet(e.reps) = SeqSet(e.r) /\ Len(e.reps) = NumSets(c))
  /\ Chk("labeling", Len(e.lab) = n /\ SeqSet(e.lab) = 0 .. (NumSets(c) - 1) /\ \A i, j \in 1 .. n : (e.lab[i] = e.lab[j]) = (c[i] = c[j]))
  /\ Chk("representative-labeling", Len(e.rk) = NumSets(c) /\ SeqSet(e.rk) = SeqSet(e.r) /\ \A i \in 1 .. Len(e.rk) : e.rv[i] = e.lab[e.rk[i] + 1])
ReportedDs(e, c) == \* the simpler class: roots, set sizes, number of sets, representative labeling
  LET n == Len(c) IN
  /\ Chk("sets", e.k = NumSets(c))
  /\ Chk("roots", Len(e.r) = n /\ \A i \in 1 .. n : e.r[i] \in 0 .. (n - 1) /\ c[e.r[i] + 1] = c[i] /\ (\A j \in 1 .. n : c[i] = c[j] => e.r[i] = e.r[j]))
  /\ Chk("set-size", \A i \in 1 .. n : e.s[i] = Cardinality(Block(c, i - 1)))
  /\ Chk("representative-labeling", Len(e.rk) = NumSets(c) /\ SeqSet(e.rk) = SeqSet(e.r) /\ SeqSet(e.rv) = 0 .. (NumSets(c) - 1))
\* set partitions: number of a labeling, the enumeration, and its inverse
AllParts(e) ==
  LET t == PartitionTable[e.n] IN
  /\ Chk("bell", e.bell = Len(t))
  /\ Chk("number", \A i \in 1 .. Len(t) : e.nums[i] = t[i])
  /\ Chk("labels", \A i \in 1 .. Len(t) : Len(e.labs[i]) = e.n /\ PartitionNumber(e.labs[i]) = t[i])
  /\ Chk("index-of-number", \A i \in 1 .. Len(t) : e.inv[i] = i - 1)
  /\ Chk("index-of-labels", \A i \in 1 .. Len(t) : e.linv[i] = i - 1 /\ e.linv2[i] = i - 1)
OnePart(e) ==
  /\ Chk("labels-number", e.num = PartitionNumber(e.x) /\ e.num2 = e.num)
  /\ Chk("labels-index", e.i = PottsGIndex(e.x) - 1 /\ e.i2 = e.i)
  /\ Chk("labels-roundtrip", PartitionNumber(e.back) = PartitionNumber(e.x))
NoPart(e) == Chk("unknown-number", (\E i \in 1 .. Len(PartitionTable[e.n]) : PartitionTable[e.n][i] = e.num) \/ e.none)
UStep(e) ==
  CASE e.op = "new" -> cls' = Fresh(e.m)
    [] e.op = "reset" -> cls' = Fresh(e.m)
    [] e.op = "merge" -> cls' = Merged(cls, e.a, e.b)
    [] e.op = "insert" -> cls' = Inserted(cls, e.m)
    [] e.op = "find" -> Chk("find", e.x \in El /\ cls[e.x + 1] = cls[e.a + 1]) /\ UNCHANGED cls
    [] e.op = "report" -> Reported(e, cls) /\ UNCHANGED cls
    [] e.op = "reportds" -> ReportedDs(e, cls) /\ UNCHANGED cls
    [] e.op = "parts" -> AllParts(e) /\ UNCHANGED cls
    [] e.op = "bells" -> Chk("bells", e.b = <<1, 1, 2, 5, 15, 52, 203, 877, 4140, 21147, 115975, 678570>>) /\ UNCHANGED cls
    [] e.op = "count" -> Chk("partition-count", e.last = 1 /\ e.n = e.bell /\ e.asc) /\ UNCHANGED cls
    [] e.op = "part" -> OnePart(e) /\ UNCHANGED cls
    [] e.op = "nopart" -> NoPart(e) /\ UNCHANGED cls
    [] OTHER -> FALSE
TraceInit == TInit /\ cls = <<>>
TraceNext == (TEvent /\ UStep(Ev)) \/ (TDone /\ UNCHANGED cls)
=============================================================================
