------------------------------- MODULE Wrappers -----------------------------
(* Solvers which reduce a model before (or instead of) solving it:          *)
(*   mqpbo     labels excluded and variables decided for good               *)
(*   hqpbo     higher-order binary models by roof duality                   *)
(*   reduced   persistency, tentacles and components taken off first        *)
(*   dmc       multicut models decomposed along repulsive edges             *)
(*   submodel  some variables optimised while the others stay as they are   *)
EXTENDS Solver
WrapNames == {"mqpbo", "hqpbo", "reduced", "dmc"}
Wrap(s) == s.name \in WrapNames
Optima(a) == { r \in 1 .. Len(tab) : tab[r] = Opt(a) }
\* labels still possible: left[i] is the sequence of labels of variable i
Fits(y, left) == \A i \in 1 .. NV : \E k \in 1 .. Len(left[i]) : left[i][k] = y[i]
WeaklyPersistent(a, left) == \E r \in Optima(a) : Fits(Unrank(sp, r - 1), left)
StronglyPersistent(a, left) == \A r \in Optima(a) : Fits(Unrank(sp, r - 1), left)
\* Potts models: a label that wins its variable by more than all the couplings
IsPotts(f) == Len(f.v) = 2 => \A r, q \in 1 .. Len(f.t) : LET x == Unrank(f.s, r - 1) y == Unrank(f.s, q - 1) IN (x[1] = x[2]) = (y[1] = y[2]) => f.t[r] = f.t[q]
PottsModel == AtMostPairwise /\ \A i \in 1 .. Len(fa) : IsPotts(fa[i])
Coupling(f) == Abs(At(f, <<0, 1>>) - At(f, <<0, 0>>))
Lead(f, l) == MinSeq([k \in 1 .. (f.s[1] - 1) |-> At(f, <<IF k - 1 < l THEN k - 1 ELSE k>>)]) - At(f, <<l>>)
Dominates(v, l) ==
  LET un == SelectSeq(fa, LAMBDA f : f.v = <<v>>) pw == SelectSeq(fa, LAMBDA f : Len(f.v) = 2 /\ v \in SeqSet(f.v))
  IN SumSeq([k \in 1 .. Len(un) |-> Lead(un[k], l)]) > SumSeq([k \in 1 .. Len(pw) |-> Coupling(pw[k])])

-----------------------------------------------------------------------------
(* Decomposition of multicut models: variables joined by edges of weight    *)
(* above a threshold stay together, all other edges are cut.                *)
Weight(f) == At(f, <<0, 1>>) - At(f, <<0, 0>>)
AllPairs == \A i \in 1 .. Len(fa) : Len(fa[i].v) = 2
JoinScopes(th) == { SeqSet(fa[i].v) : i \in { j \in 1 .. Len(fa) : Weight(fa[j]) > th } }
RECURSIVE Spread(_, _)
Spread(E, T) == LET N == UNION { c \in E : c \cap T # {} } \ T IN IF N = {} THEN T ELSE Spread(E, T \cup N)
Together(th) == LET E == JoinScopes(th) IN [v \in Range0(NV) |-> Spread(E, {v})]
Separated(y, G) == \A u, w \in Range0(NV) : w \notin G[u] => y[u + 1] # y[w + 1]
SeparatedBest(a, th) == LET G == Together(th) S == { tab[r] : r \in { q \in 1 .. Len(tab) : Separated(Unrank(sp, q - 1), G) } } IN Best(a, SetToSeq(S))

-----------------------------------------------------------------------------
(* Part of the variables.                                                   *)
Outside(x, y, S) == \A v \in Range0(NV) \ S : y[v + 1] = x[v + 1]
BestWithin(a, x, S) == Best(a, SetToSeq({ tab[r] : r \in { q \in 1 .. Len(tab) : Outside(x, Unrank(sp, q - 1), S) } }))
Put(x, vs, ls) == [i \in 1 .. NV |-> IF \E k \in 1 .. Len(vs) : vs[k] = i - 1 THEN ls[CHOOSE k \in 1 .. Len(vs) : vs[k] = i - 1] ELSE x[i]]
=============================================================================
