------------------------------- MODULE OGBase -------------------------------
(* Shared vocabulary of all specifications: label spaces, labelings,        *)
(* first-coordinate-major tables, exact function values of the built-in     *)
(* function families, and the combination operators / optimisation orders.  *)
(* Variables and labels are 0-based as in the library; TLA+ sequences are   *)
(* 1-based, so variable v of labeling x is x[v + 1].                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

POSINF == 2000000001
NEGINF == -2000000001
NotNum == 2000000003
TooBig == 2000000005
NonInt == 2000000007
\* equality of a recorded value with an expected one: the neutral elements of
\* min and max may be represented by infinity or by the largest finite value
SameVal(got, want) ==
  \/ got = want
  \/ want = POSINF /\ got = TooBig
  \/ want = NEGINF /\ got = -TooBig
IsNum(n) == n < 1500000000 /\ n > -1500000000

\* a named conjunct: prints its name when it fails, so that a rejection says why
Chk(name, c) == IF c THEN TRUE ELSE (PrintT(<<"CHK", name>>) /\ FALSE)

Range0(n) == 0 .. (n - 1)
Abs(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
MinSeq(s) == FoldLeft(LAMBDA a, b : Min2(a, b), Head(s), s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : Max2(a, b), Head(s), s)
AllSeq(s, P(_)) == \A i \in 1 .. Len(s) : P(s[i])
IsStrictlyAscending(s) == \A i \in 1 .. (Len(s) - 1) : s[i] < s[i + 1]
IsAscending(s) == \A i \in 1 .. (Len(s) - 1) : s[i] <= s[i + 1]
SeqSet(s) == { s[i] : i \in 1 .. Len(s) }
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

-----------------------------------------------------------------------------
(* Shapes, ranks and labelings.                                             *)
Size(shape) == ProdSeq(shape)
Strides(shape) == [i \in 1 .. Len(shape) |-> ProdSeq(SubSeq(shape, 1, i - 1))]

RECURSIVE RankFrom(_, _, _)
RankFrom(shape, x, i) ==
  IF i > Len(shape) THEN 0 ELSE x[i] + shape[i] * RankFrom(shape, x, i + 1)
\* rank of labeling x in the table of a function of the given shape
Rank(shape, x) == RankFrom(shape, x, 1)

RECURSIVE UnrankFrom(_, _, _)
UnrankFrom(shape, r, i) ==
  IF i > Len(shape) THEN <<>>
  ELSE <<r % shape[i]>> \o UnrankFrom(shape, r \div shape[i], i + 1)
Unrank(shape, r) == UnrankFrom(shape, r, 1)

InShape(shape, x) == Len(x) = Len(shape) /\ \A i \in 1 .. Len(x) : x[i] >= 0 /\ x[i] < shape[i]
\* all labelings in table order
Labelings(shape) == [r \in 1 .. Size(shape) |-> Unrank(shape, r - 1)]
\* restriction of a full labeling to a list of variables
Sub(x, vars) == [i \in 1 .. Len(vars) |-> x[vars[i] + 1]]

-----------------------------------------------------------------------------
(* The built-in function families, as exact closed forms.                   *)
(* A function is [k |-> kind, c |-> class, s |-> shape, p |-> parameters].  *)
AllEqual(x) == \A i \in 1 .. Len(x) : x[i] = x[1]
\* the partition of positions induced by equality of labels, as the
\* restricted growth string of x
RECURSIVE Rgs(_, _, _)
Rgs(x, i, seen) ==
  IF i > Len(x) THEN <<>>
  ELSE LET hit == { j \in 1 .. Len(seen) : seen[j] = x[i] }
       IN IF hit = {} THEN <<Len(seen)>> \o Rgs(x, i + 1, Append(seen, x[i]))
          ELSE <<(CHOOSE j \in hit : TRUE) - 1>> \o Rgs(x, i + 1, seen)
RGS(x) == Rgs(x, 1, <<>>)
\* generalised Potts: the values are ordered by the number of the partition,
\* bit (i, j) of which says that positions j < i are equal; the number has
\* bits ordered by i, then j
RECURSIVE PNum(_, _, _, _)
PNum(x, i, j, base) ==
  IF i > Len(x) THEN 0
  ELSE IF j = i THEN PNum(x, i + 1, 1, base)
  ELSE (IF x[i] = x[j] THEN base ELSE 0) + PNum(x, i, j + 1, 2 * base)
PartitionNumber(x) == PNum(x, 2, 1, 1)
RECURSIVE AllRGS(_)
AllRGS(n) ==
  IF n = 0 THEN { <<>> }
  ELSE UNION { { Append(g, c) : c \in 0 .. (IF g = <<>> THEN 0 ELSE Max({ g[i] : i \in 1 .. Len(g) }) + 1) } : g \in AllRGS(n - 1) }
MaxPartitionOrder == 6
PartitionTable == [n \in 1 .. MaxPartitionOrder |-> SetToSortSeq({ PartitionNumber(g) : g \in AllRGS(n) }, LAMBDA a, b : a < b)]
PottsGIndex(x) ==
  LET g == PartitionNumber(x) t == PartitionTable[Len(x)]
  IN CHOOSE i \in 1 .. Len(t) : t[i] = g

FVal(f, x) ==
  CASE f.k = "explicit" -> f.p[Rank(f.s, x) + 1]
    [] f.k = "const"    -> f.p[1]
    [] f.k = "potts"    -> IF x[1] = x[2] THEN f.p[1] ELSE f.p[2]
    [] f.k = "pottsn"   -> IF AllEqual(x) THEN f.p[1] ELSE f.p[2]
    [] f.k = "pottsg"   -> f.p[PottsGIndex(x)]
    [] f.k = "ad"       -> f.p[1] * Abs(x[1] - x[2])
    [] f.k = "sd"       -> f.p[1] * (x[1] - x[2]) * (x[1] - x[2])
    [] f.k = "tad"      -> f.p[2] * Min2(Abs(x[1] - x[2]), f.p[1])
    [] f.k = "tsd"      -> f.p[2] * Min2((x[1] - x[2]) * (x[1] - x[2]), f.p[1])
    [] f.k = "sparse"   -> f.p[Rank(f.s, x) + 2]       \* p[1] is the default value
    [] f.k = "single"   -> f.p[x[1] + 1]
    \* field of experts: p = <<experts>> \o alphas \o experts (row by row);
    \* exp(value) times a power of two, which is an integer for natural alphas
    [] f.k = "foe"      -> LET n == Len(x) IN ProdSeq([e \in 1 .. f.p[1] |-> LET d == SumSeq([j \in 1 .. n |-> f.p[1 + f.p[1] + (e - 1) * n + j] * x[j]]) IN (2 + d * d) ^ f.p[1 + e]])
    \* unary losses: p = <<type, ground truth, multiplier>> \o label multipliers
    [] f.k = "loss"     -> LET d == x[1] - f.p[2] nz == IF d = 0 THEN 0 ELSE 1 IN f.p[3] *
         (CASE f.p[1] = 0 -> -nz [] f.p[1] = 1 -> nz * f.p[4 + x[1]] [] f.p[1] = 2 -> nz * f.p[4 + f.p[2]]
            [] f.p[1] = 3 -> nz * f.p[4 + x[1] + f.s[1] * f.p[2]] [] f.p[1] = 4 -> Abs(d) [] f.p[1] = 5 -> d * d)
    [] f.k = "custom"   -> f.p[1] + f.p[2] * SumSeq([i \in 1 .. Len(x) |-> i * x[i]])

\* the complete value table of a function, in table order
FTable(f) == [r \in 1 .. Size(f.s) |-> FVal(f, Unrank(f.s, r - 1))]

-----------------------------------------------------------------------------
(* Combination operators (semigroups) and optimisation orders.              *)
B2I(b) == IF b THEN 1 ELSE 0
Neutral(op) ==
  CASE op = "add" -> 0 [] op = "mul" -> 1 [] op = "and" -> 1 [] op = "or" -> 0
    [] op = "min" -> POSINF [] op = "max" -> NEGINF
Apply(op, a, b) ==
  CASE op = "add" -> a + b
    [] op = "mul" -> a * b
    [] op = "and" -> B2I(a # 0 /\ b # 0)
    [] op = "or"  -> B2I(a # 0 \/ b # 0)
    [] op = "min" -> Min2(a, b)
    [] op = "max" -> Max2(a, b)
Combine(op, s) == FoldLeft(LAMBDA a, b : Apply(op, a, b), Neutral(op), s)

\* optimisation orders: Better(acc, a, b) iff a is strictly better than b
Better(acc, a, b) == CASE acc = "min" -> a < b [] acc = "max" -> a > b
AtLeastAsGood(acc, a, b) == ~Better(acc, b, a)

-----------------------------------------------------------------------------
(* Models in table form: [sp |-> labels per variable,                       *)
(*                        fa |-> sequence of [v |-> vars, t |-> table]].    *)
FacVal(sp, fac, x) ==
  fac.t[Rank([i \in 1 .. Len(fac.v) |-> sp[fac.v[i] + 1]], Sub(x, fac.v)) + 1]
EvalT(op, m, x) == Combine(op, [i \in 1 .. Len(m.fa) |-> FacVal(m.sp, m.fa[i], x)])
=============================================================================
