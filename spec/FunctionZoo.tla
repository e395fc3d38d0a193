------------------------------ MODULE FunctionZoo ---------------------------
(* Function objects with value semantics: slots hold functions described by *)
(* kind, shape and parameters; setters change exactly the addressed value.  *)
EXTENDS OGBase
VARIABLE slot     \* function from slot numbers to descriptions, "none" if empty
NoFn == [k |-> "none", s |-> <<>>, p |-> <<>>]
New(i, f) == slot' = [slot EXCEPT ![i] = f]
Copy(i, j) == slot' = [slot EXCEPT ![i] = slot[j]]
SetP(i, k, v) == k \in 1 .. Len(slot[i].p) /\ slot' = [slot EXCEPT ![i].p[k] = v]
\* which parameter a labeling addresses
Address(f, x) ==
  CASE f.k = "explicit" -> Rank(f.s, x) + 1
    [] f.k = "single" -> x[1] + 1
    [] f.k = "sparse" -> Rank(f.s, x) + 2
    [] f.k = "pottsg" -> PottsGIndex(x)
Set(i, x, v) == InShape(slot[i].s, x) /\ SetP(i, Address(slot[i], x), v)
SetPartition(i, n, v) == \E k \in 1 .. Len(slot[i].p) : PartitionTable[Len(slot[i].s)][k] = n /\ SetP(i, k, v)
Resize(i, n, v) == slot[i].k = "single" /\ slot' = [slot EXCEPT ![i] = [k |-> "single", s |-> <<n>>, p |-> [q \in 1 .. n |-> v]]]
=============================================================================
