---------------------------- MODULE TraceAlgebra ----------------------------
EXTENDS Algebra, TraceBase
tvars == <<acc, tri>>
Lim(g, w) == SameVal(g, w)
AlgEvent(e) == /\ Chk("neutral", Lim(e.e1, NeutralOf(e.o)) /\ Lim(e.e2, NeutralOf(e.o)))
               /\ Chk("op-in-place", e.r = Ext(e.o, e.a, e.b)) /\ Chk("op", e.r3 = Ext(e.o, e.a, e.b))
               /\ Chk("inverse-neutral", "i1" \in DOMAIN e => Lim(e.i1, INeutralOf(e.o)) /\ Lim(e.i2, INeutralOf(e.o)))
               /\ Chk("inverse-op-in-place", "ir" \in DOMAIN e => e.ir = Inv(e.o, e.x, e.y)) /\ Chk("inverse-op", "ir3" \in DOMAIN e => e.ir3 = Inv(e.o, e.x, e.y))
               /\ Chk("order", "hb" \in DOMAIN e => /\ e.hb = Optimising(e.o)
                         /\ (Optimising(e.o) => (e.bo = Better(e.o, e.a, e.b) /\ e.ib = Better(e.o, e.b, e.a))))
\* weighted operations; w4 is four times the weight, results are four times the result; a, b, r in the
\* domain of exponents for products
WOp(e, a, b) == CASE e.w = "wop" -> 4 * b + a * e.w4 [] e.w = "iwop" -> 4 * b + (16 * a) \div e.w4
                  [] e.w = "wiop" -> 4 * b - a * e.w4 [] e.w = "iwiop" -> 4 * b - (16 * a) \div e.w4
                  [] e.w = "mean" -> a * e.w4 + b * (4 - e.w4)
                  [] e.w = "hop" -> a * e.w4 [] e.w = "ihop" -> (16 * a) \div e.w4
Step(e) ==
  CASE e.op = "alg" -> AlgEvent(e) /\ UNCHANGED tvars
    [] e.op = "weighted" -> Chk("weighted", \A i \in 1 .. Len(e.a) : e.r[i] = WOp(e, e.a[i], e.b[i])) /\ UNCHANGED tvars
    [] e.op = "normalize" -> /\ Chk("normalized", LET z == (CASE e.acc = "min" -> MinSeq(e.t) [] e.acc = "max" -> MaxSeq(e.t) [] e.acc = "int" -> SumSeq(e.t))
                                  \* r: for sums the result, for products the result times the accumulated value
                                  IN e.z = z /\ \A i \in 1 .. Len(e.t) : e.r[i] = IF e.o = "add" THEN e.t[i] - z ELSE e.t[i])
                             /\ UNCHANGED tvars
    [] e.op = "fun" -> /\ Chk("functors", e.ac = FoldLeft(LAMBDA a, b : Ext(e.o, a, b), NeutralOf(e.o), e.v) /\ e.mi = MinSeq(e.v) /\ e.ma = MaxSeq(e.v)
                                /\ e.mi2 = Min2(e.b[1], MinSeq(e.v)) /\ e.ma2 = Max2(e.b[2], MaxSeq(e.v))
                                /\ e.sw = e.v[1] - e.b[1] /\ e.left = e.b[1] - e.v[1] /\ e.right = e.v[1] - e.b[1] /\ e.copy = e.v)
                       /\ UNCHANGED tvars
    [] e.op = "new" -> NewAcc(e.o) /\ UNCHANGED tri
    [] e.op = "feed" -> Chk("argument", e.s \in Arguments(e.v, e.st)) /\ FeedTo(e.v, e.s) /\ UNCHANGED tri
    [] e.op = "clear" -> Clear /\ UNCHANGED tri
    [] e.op = "see" -> /\ Chk("accumulated", Lim(e.v, acc.v)) /\ Chk("accumulator-neutral", Lim(e.e, NeutralOf(acc.o)))
                       /\ (Optimising(acc.o) => (e.st = acc.st /\ e.st2 = acc.st /\ e.st3 = acc.st))
                       /\ UNCHANGED tvars
    [] e.op = "tset" -> TriSet(e.i, e.k) /\ UNCHANGED acc
    [] e.op = "tcopy" -> TriCopy(e.i, e.j) /\ UNCHANGED acc
    [] e.op = "tand" -> TriAnd(e.i, e.k) /\ UNCHANGED acc
    [] e.op = "tsee" -> /\ LET t == tri[e.i] IN
                           /\ Chk("tribool-value", e.pr = t /\ e.b = (t = 1) /\ e.n = (t = 0) /\ e.m = (t = -1))
                           /\ Chk("tribool-bool", e.et = (t = 1) /\ e.ef = (t = 0) /\ e.nt = (t # 1) /\ e.nf = (t # 0))
                           /\ Chk("tribool-eq", e.es = [k \in 1 .. 3 |-> B2I(t = k - 2)] /\ e.ns = [k \in 1 .. 3 |-> B2I(t # k - 2)] /\ e.ei = [k \in 1 .. 3 |-> B2I(t = k - 2)])
                           /\ Chk("tribool-slots", e.eq = [k \in 1 .. 3 |-> B2I(t = tri[k])] /\ e.ne = [k \in 1 .. 3 |-> B2I(t # tri[k])])
                        /\ UNCHANGED tvars
    [] OTHER -> FALSE
TraceInit == TInit /\ acc = [o |-> "min", v |-> POSINF, st |-> <<>>, n |-> 0] /\ tri = [i \in 1 .. 3 |-> -1]
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED tvars)
=============================================================================
