------------------------- MODULE MCReparametrization -------------------------
(* Message passing on small chains: whatever is pulled and pushed in        *)
(* whatever order, no labeling changes its value and the local bound never  *)
(* passes the optimum; a locally consistent labeling is optimal; after one  *)
(* sweep along a chain the local bound is the optimum.                      *)
EXTENDS Reparametrization
CONSTANTS Vals, Pairs, Steps
VARIABLES n, sweep
vars == <<opr, sp, fa, tab, dual, n, sweep>>
P == <<  <<0, 1, 1, 0>>, <<1, 0, 0, 1>>, <<0, 2, 0, 1>>, <<0, 0, 0, 0>> >>
Un(v, t) == [v |-> <<v>>, s |-> <<2>>, t |-> t]
Pw(u, v, k) == [v |-> <<u, v>>, s |-> <<2, 2>>, t |-> P[k]]
Init == /\ opr = "add" /\ sp = <<2, 2, 2>>
        /\ \E a, b, c, d, e, f \in Vals : \E p, q \in 1 .. Pairs : fa = << Un(0, <<a, b>>), Un(1, <<c, d>>), Un(2, <<e, f>>), Pw(0, 1, p), Pw(1, 2, q) >>
        /\ tab = FullTable("add", sp, fa) /\ dual = NoDual(fa) /\ n = 0 /\ sweep = 0
Move(d) == dual' = d /\ n' = n + 1 /\ UNCHANGED <<opr, sp, fa, tab>>
Next == n < Steps /\ \E i \in {4, 5}, k \in {1, 2} :
   \/ Move(Pull(dual, i, k)) /\ sweep' = (IF <<sweep, i, k>> = <<0, 4, 1>> THEN 1 ELSE IF <<sweep, i, k>> = <<2, 5, 1>> THEN 3 ELSE -1)
   \/ Move(Push(dual, i, k, "min")) /\ sweep' = (IF <<sweep, i, k>> = <<1, 4, 2>> THEN 2 ELSE IF <<sweep, i, k>> = <<3, 5, 2>> THEN 4 ELSE -1)
Spec == Init /\ [][Next]_vars
Preserved == Preserves(Tables(dual))
Under == LocalBound("min", Tables(dual)) <= DS * Opt("min")
ConsistentIsOptimal == LET T == Tables(dual) IN \A r \in 1 .. Len(tab) : Consistent("min", T, Unrank(sp, r - 1)) => tab[r] = Opt("min") /\ LocalBound("min", T) = DS * Opt("min")
Swept == sweep = 4 => LocalBound("min", Tables(dual)) = DS * Opt("min")
=============================================================================
