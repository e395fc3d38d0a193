----------------------------- MODULE Containers -----------------------------
(* Sorted random access sets and growing sequences.                         *)
(* sets[o] = [d |-> comparison, s |-> sorted sequence of keys]              *)
(* seqs[o] = sequence of values                                             *)
(* Comparisons: 0 ascending, 1 descending, 2 by the last decimal digit.     *)
EXTENDS OGBase
VARIABLES sets, seqs
kvars == <<sets, seqs>>

Before(d, a, b) == CASE d = 0 -> a < b [] d = 1 -> a > b [] d = 2 -> (a % 10) < (b % 10)
Equiv(d, a, b) == ~Before(d, a, b) /\ ~Before(d, b, a)
\* positions are 0-based, the length of the sequence is the end
LowerPos(d, s, x) == Cardinality({ i \in 1 .. Len(s) : Before(d, s[i], x) })
UpperPos(d, s, x) == Cardinality({ i \in 1 .. Len(s) : ~Before(d, x, s[i]) })
Member(d, s, x) == \E i \in 1 .. Len(s) : Equiv(d, s[i], x)
FindPos(d, s, x) == IF Member(d, s, x) THEN LowerPos(d, s, x) ELSE Len(s)
InsAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
DelRange(s, p, q) == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
Ins(d, s, x) == IF Member(d, s, x) THEN s ELSE InsAt(s, LowerPos(d, s, x), x)
InsAll(d, s, xs) == FoldLeft(LAMBDA acc, x : Ins(d, acc, x), s, xs)
SetOK(d, s) == \A i \in 1 .. (Len(s) - 1) : Before(d, s[i], s[i + 1])

Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
SetOp(o, d, s) == sets' = Put(sets, o, [d |-> d, s |-> s]) /\ UNCHANGED seqs
SeqOp(o, s) == seqs' = Put(seqs, o, s) /\ UNCHANGED sets
SetsOK == \A o \in DOMAIN sets : SetOK(sets[o].d, sets[o].s)
=============================================================================
