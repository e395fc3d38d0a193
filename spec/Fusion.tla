-------------------------------- MODULE Fusion ------------------------------
(* Fusion moves: the 2^d labelings that take every variable's label from    *)
(* one of two given labelings, what a move may answer, what the proposal    *)
(* generators offer, and when fusion-based inference may stop.              *)
EXTENDS Solver
IsFusion(a, b, x) == Len(x) = NV /\ \A i \in 1 .. NV : x[i] \in {a[i], b[i]}
Fused(a, b, S) == [i \in 1 .. NV |-> IF (i - 1) \in S THEN b[i] ELSE a[i]]
Fusions(a, b) == { Fused(a, b, S) : S \in SUBSET Diff(a, b) }
\* the value a move may answer with: never behind either input
NoWorse(acc, a, b, x) == NotWorse(acc, Value(x), Value(a)) /\ NotWorse(acc, Value(x), Value(b))
MoveAllowed(acc, a, b, x) == IsFusion(a, b, x) /\ NoWorse(acc, a, b, x)
BestFusion(acc, a, b, x) == LET v == TLCEval(Value(x)) IN \A y \in Fusions(a, b) : ~Better2(acc, Value(y), v)
\* no fusion that differs from x in at most k connected variables is better
FlipOptFusion(acc, a, b, x, k) == LET v == TLCEval(Value(x)) IN \A y \in Fusions(a, b) : Better2(acc, Value(y), v) => ~(Cardinality(Diff(x, y)) <= k /\ Connected(Diff(x, y)))
\* the binary problem of the move has submodular factors of at most two variables
SubmodularMove(acc, a, b) ==
  AtMostPairwise /\ \A i \in 1 .. Len(fa) : Order(i) = 2 =>
    LET f == fa[i] p == f.v[1] + 1 q == f.v[2] + 1
        A(s, t) == At(f, <<IF s = 0 THEN a[p] ELSE b[p], IF t = 0 THEN a[q] ELSE b[q]>>)
    IN IF acc = "min" THEN A(0, 0) + A(1, 1) <= A(0, 1) + A(1, 0) ELSE A(0, 0) + A(1, 1) >= A(0, 1) + A(1, 0)

-----------------------------------------------------------------------------
(* Proposals, for the current labeling x.                                   *)
MaxL == MaxSeq(<<0>> \o sp)
Expand(x, al) == [i \in 1 .. NV |-> IF al < sp[i] THEN al ELSE x[i]]
Swap(x, al, be) == [i \in 1 .. NV |-> IF x[i] = al /\ be < sp[i] THEN be ELSE IF x[i] = be /\ al < sp[i] THEN al ELSE x[i]]
ProposalOK(gen, n, x, p) ==
  /\ Valid(p)
  /\ CASE gen = "alpha" -> p = Expand(x, n % MaxL)
       [] gen = "swap" -> IF MaxL < 2 THEN p = x ELSE \E al, be \in Range0(MaxL) : al # be /\ p = Swap(x, al, be)
       [] gen = "updown" -> \A i \in 1 .. NV : IF sp[i] = 1 THEN p[i] = x[i] ELSE Abs(p[i] - x[i]) = 1
       [] gen = "random2" -> \A i \in 1 .. NV : p[i] <= 1
       [] OTHER -> TRUE
\* rounds without improvement after which the inference gives up, unless told otherwise
Patience(gen) ==
  CASE gen = "alpha" -> MaxL
    [] gen = "swap" -> (MaxL * MaxL - MaxL) \div 2
    [] gen = "updown" -> 2
    [] gen = "random2" -> 4
    [] OTHER -> 10
=============================================================================
