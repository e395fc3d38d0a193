---------------------------- MODULE MCConstraints ---------------------------
(* Laws of indicator variables, linear constraints and their functions,     *)
(* over all small instances.                                                *)
EXTENDS Constraints
CONSTANT Full
VARIABLE done
Pairs == {0, 1} \X {0, 1}
AllPairs == { <<a>> : a \in Pairs } \cup { <<a, b>> : a \in Pairs, b \in Pairs }
Ivs == { Canon([o |-> q, p |-> s]) : q \in {"and", "or", "not"}, s \in AllPairs }
\* the order of indicators is a strict total order
ASSUME \A a \in Ivs, b \in Ivs : ((a = b) <=> (~IvLt(a, b) /\ ~IvLt(b, a))) /\ ~(IvLt(a, b) /\ IvLt(b, a))
ASSUME \A a \in Ivs, b \in Ivs : IvLt(a, b) => \A c \in Ivs : (IvLt(b, c) => IvLt(a, c))
\* "some" is "not none"; one pair: "some" is "all"
ASSUME \A iv \in Ivs, x \in {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>} : iv.o = "or" => (Holds(iv, x) = ~Holds([iv EXCEPT !.o = "not"], x))
ASSUME \A iv \in Ivs, x \in {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>} : (iv.o = "or" /\ Len(iv.p) = 1) => (Holds(iv, x) = Holds([iv EXCEPT !.o = "and"], x))
\* the label order is described by one linear constraint, the limit of labels by another
One(v, l) == [o |-> "and", p |-> << <<v, l>> >>]
OrderCon(n, m, w) == [iv |-> [i \in 1 .. (n + m) |-> IF i <= n THEN One(0, i - 1) ELSE One(1, i - n - 1)], c |-> [i \in 1 .. (n + m) |-> IF i <= n THEN w[i] ELSE -w[i - n]], b |-> 0, r |-> "LE"]
Wt == IF Full THEN -2 .. 2 ELSE -1 .. 1
ASSUME \A n \in 1 .. 3, m \in 1 .. 3, w \in [1 .. 3 -> Wt] : Describes(<<OrderCon(n, m, w)>>, [k |-> "order", s |-> <<n, m>>, ord |-> w])
AnyOf(s, l) == [o |-> "or", p |-> SelectSeq([i \in 1 .. Len(s) |-> <<i - 1, l>>], LAMBDA q : s[q[1] + 1] > l)]
LimitCon(s, m) == [iv |-> [l \in 1 .. MaxSeq(s) |-> AnyOf(s, l - 1)], c |-> [l \in 1 .. MaxSeq(s) |-> 1], b |-> m, r |-> "LE"]
Shapes == { <<a, b>> : a \in 1 .. 3, b \in 1 .. 3 } \cup { <<a, b, c>> : a \in 1 .. 3, b \in 1 .. 3, c \in 1 .. 2 }
ASSUME \A s \in Shapes, m \in 0 .. 3 : Describes(<<LimitCon(s, m)>>, [k |-> "limit", s |-> s, most |-> m])
\* relaxed violation on 0/1 values of the indicators is the violation of the labeling
ASSUME \A s \in Shapes, m \in 0 .. 3 : LET c == LimitCon(s, m) IN \A r \in 1 .. Size(s) : LET x == Unrank(s, r - 1) IN
   ViolationRelaxed(c, c.iv, [i \in 1 .. Len(c.iv) |-> B01(Holds(c.iv[i], x))], 1) = Violation(c, x)
\* the two-sided slack of a sum constraint and the switch variables of label costs give the functions
SlackVar(n, j) == One(n + j, 0)
SumCons(s, co, b) == LET n == Len(s) all == [i \in 1 .. (2 * n) |-> One((i - 1) \div 2, (i - 1) % 2)]
                         cs == [i \in 1 .. (2 * n) |-> co[1 + ((i - 1) % 2)]] IN
   << [iv |-> all \o <<SlackVar(n, 0)>>, c |-> cs \o <<-1>>, b |-> b, r |-> "LE"],
      [iv |-> all \o <<SlackVar(n, 0)>>, c |-> [i \in 1 .. Len(cs) |-> -cs[i]] \o <<-1>>, b |-> -b, r |-> "LE"] >>
ASSUME \A s \in { <<2>>, <<2, 2>> }, co \in [1 .. 2 -> Wt], b \in Wt, lam \in 0 .. 2 : LET f == [k |-> "sum", s |-> s, co |-> co, share |-> TRUE, lambda |-> lam, bound |-> b] IN
   \A r \in 1 .. Size(s) : LET x == Unrank(s, r - 1) IN Least(SumCons(s, co, b), <<SlackVar(Len(s), 0)>>, <<lam>>, x, 7) = Value(f, x)
CostCons(s) == [l \in 1 .. MaxSeq(s) |-> [iv |-> <<AnyOf(s, l - 1), SlackVar(Len(s), l - 1)>>, c |-> <<1, -1>>, b |-> 0, r |-> "EQ"]]
ASSUME \A s \in Shapes, co \in [1 .. 3 -> Wt] : LET f == [k |-> "costs", s |-> s, costs |-> co] IN
   \A r \in 1 .. Size(s) : LET x == Unrank(s, r - 1) IN
      Least(CostCons(s), [l \in 1 .. MaxSeq(s) |-> SlackVar(Len(s), l - 1)], SubSeq(co, 1, MaxSeq(s)), x, 1) = Value(f, x)
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
