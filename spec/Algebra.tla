------------------------------- MODULE Algebra ------------------------------
(* The combination operations with their neutral and inverse elements over  *)
(* the integers extended by the two infinities, optimising accumulators     *)
(* (a running value with an argument attaining it), and the three-valued    *)
(* truth values of structural queries.                                      *)
EXTENDS OGBase
Inf(a) == a = POSINF \/ a = NEGINF
Ext(o, a, b) == IF o \in {"add", "int"} THEN (IF Inf(a) THEN a ELSE IF Inf(b) THEN b ELSE a + b)
                ELSE IF o = "lse" THEN a + b                        \* on the arguments of the logarithms
                ELSE Apply(o, a, b)
\* the inverse operation x (-) y where it is defined
Inv(o, x, y) == CASE o \in {"add", "int", "lse"} -> x - y
                  [] o = "mul" -> x \div y
                  [] o = "min" -> Max2(x, y)
                  [] o = "max" -> Min2(x, y)
NeutralOf(o) == CASE o = "int" -> 0 [] o = "lse" -> 0 [] OTHER -> Neutral(o)
INeutralOf(o) == CASE o = "min" -> NEGINF [] o = "max" -> POSINF [] o = "add" -> 0 [] o = "mul" -> 1 [] o \in {"int", "lse"} -> POSINF
Optimising(o) == o \in {"min", "max"}
\* exponent o' of the operation: repeated application, add -> mul -> power
-----------------------------------------------------------------------------
(* An accumulator: everything fed since the last clear, as a running value  *)
(* and an argument.                                                         *)
VARIABLES acc     \* [o, v, st, n] with st = <<>> before the first labelled value
NewAcc(o) == acc' = [o |-> o, v |-> NeutralOf(o), st |-> <<>>, n |-> 0]
\* the argument is replaced only by a value that is at least as good
Arguments(v, st) == IF acc.n = 0 THEN {st} ELSE IF ~Optimising(acc.o) THEN {acc.st, st} ELSE IF Better(acc.o, v, acc.v) THEN {st} ELSE IF v = acc.v THEN {st, acc.st} ELSE {acc.st}
FeedTo(v, s) == acc' = [o |-> acc.o, v |-> Ext(acc.o, v, acc.v), st |-> s, n |-> acc.n + 1]
Feed(v, st) == \E s \in Arguments(v, st) : FeedTo(v, s)
Clear == NewAcc(acc.o)
-----------------------------------------------------------------------------
(* Three-valued truth: 1 true, 0 false, -1 unknown.                         *)
VARIABLES tri     \* slots
TriOf(k) == IF k = -1 THEN -1 ELSE B2I(k # 0)
TriSet(i, k) == tri' = [tri EXCEPT ![i] = TriOf(k)]
TriCopy(i, j) == tri' = [tri EXCEPT ![i] = tri[j]]
\* accumulating evidence: false is final, unknown adds nothing
Evidence(t, s) == IF s = 0 \/ t = 0 THEN 0 ELSE IF s = -1 THEN t ELSE 1
TriAnd(i, s) == tri' = [tri EXCEPT ![i] = Evidence(@, s)]
=============================================================================
