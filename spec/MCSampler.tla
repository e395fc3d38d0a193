------------------------------ MODULE MCSampler ------------------------------
(* All proposals and draws of a few steps of Gibbs sampling on a small      *)
(* model; seen collects every state the chain was in.                       *)
EXTENDS Sampler
CONSTANTS Steps, Burn
VARIABLE seen
Draws == {0, 2, 20, 63}
Fac(v, s, t) == [v |-> v, s |-> s, t |-> t]
ModelA == /\ opr = "add" /\ sp = <<2, 3>> /\ fa = <<Fac(<<0, 1>>, <<2, 3>>, <<3, 0, 5, 2, 1, 4>>)>>
ModelB == /\ opr = "mul" /\ sp = <<2, 2, 1>> /\ fa = <<Fac(<<0, 1>>, <<2, 2>>, <<3, 1, 0, 2>>), Fac(<<2>>, <<1>>, <<2>>)>>
Init == /\ (ModelA \/ ModelB) /\ tab = FullTable(opr, sp, fa)
        /\ LET x == [i \in 1 .. Len(sp) |-> 0] IN
             /\ smp = [alg |-> "gibbs", acc |-> IF opr = "add" THEN "min" ELSE "max", cyclic |-> FALSE, temp |-> FALSE, steps |-> Steps, burn |-> Burn, start |-> x,
                  x |-> x, best |-> x, n |-> 0, off |-> -1, ph |-> "run", ask |-> FALSE, ms |-> <<<<0>>, <<0, 1>>>>, hist |-> <<[r \in 1 .. 2 |-> 0], [r \in 1 .. (sp[1] * sp[2]) |-> 0]>>, acd |-> 0, rej |-> 0]
             /\ seen = {x}
Next == /\ StepsLeft
        /\ \E v \in Range0(NV) : \E k \in Range0(sp[v + 1]) : \E q \in Draws : GibbsStep(v, k, q, FALSE)
        /\ seen' = seen \cup {smp'.x} /\ UNCHANGED mvars
BestOfSeen == smp.best \in seen /\ \A y \in seen : NotWorse(smp.acc, Value(smp.best), Value(y))
\* products never enter a state of probability zero from one that has not
NoZero == opr = "mul" => \A y \in seen : Value(y) > 0
SamplesCounted == smp.acd + smp.rej = Max2(0, smp.n - smp.burn)
=============================================================================
