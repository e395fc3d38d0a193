-------------------------- MODULE MCPriorityQueue ---------------------------
(* The binary heap with an index table refines the abstract queue.          *)
EXTENDS PriorityQueue
CONSTANTS N, PR
VARIABLES heap, at     \* heap: sequence of items; at[i + 1]: heap position of item i or 0
vars == <<inq, prio, mx, heap, at>>
Items == 0 .. (N - 1)
MInit == inq = {} /\ prio = [i \in 1 .. N |-> 0] /\ mx \in {"min", "max"} /\ heap = <<>> /\ at = [i \in 1 .. N |-> 0]
P(pr, i) == pr[i + 1]
Swap(h, i, j) == [h EXCEPT ![i] = h[j], ![j] = h[i]]
RECURSIVE Up(_, _, _)
Up(h, pr, k) == IF k > 1 /\ Above(mx, P(pr, h[k]), P(pr, h[k \div 2])) THEN Up(Swap(h, k, k \div 2), pr, k \div 2) ELSE h
RECURSIVE Down(_, _, _)
Down(h, pr, k) ==
  IF 2 * k > Len(h) THEN h
  ELSE LET j == IF 2 * k < Len(h) /\ Above(mx, P(pr, h[2 * k + 1]), P(pr, h[2 * k])) THEN 2 * k + 1 ELSE 2 * k
       IN IF Above(mx, P(pr, h[j]), P(pr, h[k])) THEN Down(Swap(h, k, j), pr, j) ELSE h
Index(h) == [i \in 1 .. N |-> IF \E k \in 1 .. Len(h) : h[k] = i - 1 THEN CHOOSE k \in 1 .. Len(h) : h[k] = i - 1 ELSE 0]
Set(h) == heap' = h /\ at' = Index(h)
MPush(i, p) == /\ Push(i, p)
               /\ IF at[i + 1] = 0 THEN Set(Up(Append(heap, i), prio', Len(heap) + 1))
                  ELSE IF Above(mx, p, Prio(i)) THEN Set(Up(heap, prio', at[i + 1])) ELSE Set(Down(heap, prio', at[i + 1]))
CutLast(h) == SubSeq(h, 1, Len(h) - 1)
MPop == heap # <<>> /\ TakeOut(heap[1]) /\ Set(Down(CutLast(Swap(heap, 1, Len(heap))), prio, 1))
MDelete(i) == /\ at[i + 1] # 0 /\ TakeOut(i)
              /\ LET k == at[i + 1] h == CutLast(Swap(heap, k, Len(heap)))
                 IN Set(IF k > Len(h) THEN h ELSE Down(Up(h, prio, k), prio, k))
MReset == inq' = {} /\ UNCHANGED <<prio, mx>> /\ Set(<<>>)
MSetAll(p) == prio' = [i \in 1 .. N |-> p] /\ UNCHANGED <<inq, mx, heap, at>>
MNext == (\E i \in Items : MDelete(i) \/ \E p \in PR : MPush(i, p)) \/ MPop \/ MReset \/ \E p \in PR : MSetAll(p)
Contents == SeqSet(heap) = inq /\ Len(heap) = Cardinality(inq)
HeapOrder == \A k \in 2 .. Len(heap) : ~Above(mx, Prio(heap[k]), Prio(heap[k \div 2]))
TopOK == heap # <<>> => heap[1] \in Tops
Table == at = Index(heap)
=============================================================================
