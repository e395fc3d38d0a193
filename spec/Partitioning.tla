---------------------------- MODULE Partitioning -----------------------------
(* Correlation clustering by moves between pairs of sets.  A clustering is  *)
(* a labeling; only equality of labels matters.  The objective is a         *)
(* constant plus the weights of the cut pairs of variables.                 *)
EXTENDS OGBase
VARIABLES n, L, w, c     \* number of variables and labels, weights of pairs u < v, constant
pvars == <<n, L, w, c>>
Pairs(m) == { p \in Range0(m) \X Range0(m) : p[1] < p[2] }
W(u, v) == IF u < v THEN w[<<u, v>>] ELSE w[<<v, u>>]
Cost(x) == c + FoldSet(LAMBDA p, a : a + (IF x[p[1] + 1] # x[p[2] + 1] THEN w[p] ELSE 0), 0, Pairs(n))
ValidLabels(x) == Len(x) = n /\ \A i \in 1 .. n : x[i] \in Range0(L)
\* change of the cost when v moves to the set labeled k
Gain(x, v, k) == FoldSet(LAMBDA u, a : a + (IF u = v THEN 0 ELSE IF x[u + 1] = x[v + 1] THEN W(u, v) ELSE IF x[u + 1] = k THEN -W(u, v) ELSE 0), 0, Range0(n))
Put(x, v, k) == [x EXCEPT ![v + 1] = k]
Flip(x, v, a, b) == Put(x, v, IF x[v + 1] = a THEN b ELSE a)
\* no single variable can improve by moving to another or to a new set
SingleMoves(x) == { m \in Range0(n) \X (Range0(L) \cup {L}) : m[2] # x[m[1] + 1] /\ (m[2] = L \/ \E i \in 1 .. n : x[i] = m[2]) }
SingleOptimal(x) == \A m \in SingleMoves(x) : Gain(x, m[1], m[2]) >= 0
\* Kernighan-Lin: move every variable of the two sets once, the cheapest
\* first; does every order among equally cheap ones pass through a better
\* clustering?
RECURSIVE Improves(_, _, _, _, _)
Improves(x, S, a, b, d) ==
  S # {} /\ LET g == [v \in S |-> Gain(x, v, IF x[v + 1] = a THEN b ELSE a)]
                m == Min({ g[v] : v \in S })
            IN d + m < 0 \/ \A v \in { u \in S : g[u] = m } : Improves(Flip(x, v, a, b), S \ {v}, a, b, d + m)
Adjacent(x, a, b) == \E p \in Pairs(n) : w[p] # 0 /\ { x[p[1] + 1], x[p[2] + 1] } = {a, b}
Used(x) == { x[i] : i \in 1 .. n }
Members(x, a) == { v \in Range0(n) : x[v + 1] = a }
KLOptimal(x) ==
  /\ \A a, b \in Used(x) : (a < b /\ Adjacent(x, a, b)) => ~Improves(x, Members(x, a) \cup Members(x, b), a, b, 0)
  /\ \A a \in Used(x) : Cardinality(Members(x, a)) > 1 => ~Improves(x, Members(x, a), a, L, 0)
OptCost == Min({ Cost(x) : x \in { y \in [1 .. n -> Range0(n)] : y[1] = 0 } })
=============================================================================
