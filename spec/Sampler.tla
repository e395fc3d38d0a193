------------------------------- MODULE Sampler -------------------------------
(* Markov chain Monte Carlo solvers: the chain, the best labeling so far,   *)
(* the count of steps and the histograms of sampled states.                 *)
(* Randomness is explicit: a step of Gibbs sampling proposes label k for    *)
(* variable v and is given a number q / QN drawn from [0, 1).               *)
EXTENDS ModelBase
VARIABLE smp
svars == <<opr, sp, fa, tab, smp>>
NoSampler == [alg |-> "none"]
QN == 64
Beats(a, p, q) == IF a = "min" THEN p < q ELSE p > q
Changed(x, y) == { v \in Range0(NV) : x[v + 1] # y[v + 1] }
Put(x, v, k) == [x EXCEPT ![v + 1] = k]

\* the chance of a change to a labeling that is not better: the ratio of the
\* probabilities, which are the values (products) or exp(-value) (sums);
\* 64 exp(-d) is 64, 23.5, 8.7, 3.2, 1.2, 0.4, ...
ExpTab == <<63, 23, 8, 3, 1>>
Accepts(old, new, q) ==
  IF opr = "mul" THEN q * old < QN * new
  ELSE LET d == new - old IN q <= IF d >= 5 THEN 0 ELSE ExpTab[d + 1]

\* sampler with start labeling x; ms: the variable sets whose states are counted
Create(alg, acc, cyclic, temp, steps, burn, x, ms) ==
  smp' = [alg |-> alg, acc |-> acc, cyclic |-> cyclic, temp |-> temp, steps |-> steps, burn |-> burn, start |-> x,
          x |-> x, best |-> x, n |-> 0, off |-> -1, ph |-> "idle", ask |-> FALSE,
          ms |-> ms, hist |-> [i \in 1 .. Len(ms) |-> [r \in 1 .. Size(Sub(sp, ms[i])) |-> 0]], acd |-> 0, rej |-> 0]
StartRun == smp' = [smp EXCEPT !.ph = "run", !.n = 0, !.ask = FALSE]
BurnIn == smp.n < smp.burn
StepsLeft == smp.n < smp.steps + smp.burn /\ ~smp.ask
BestAfter(y, counts) == IF counts /\ Beats(smp.acc, Value(y), Value(smp.best)) THEN y ELSE smp.best
Count(y) == [i \in 1 .. Len(smp.ms) |-> LET r == Rank(Sub(sp, smp.ms[i]), Sub(y, smp.ms[i])) + 1 IN [smp.hist[i] EXCEPT ![r] = @ + 1]]
\* the chain moves to y (possibly where it is); acc: the proposal was accepted
MoveTo(y, acc, bestCounts, ask) ==
  smp' = [smp EXCEPT !.x = y, !.best = BestAfter(y, bestCounts), !.n = @ + 1, !.ask = ask,
                     !.hist = IF BurnIn THEN @ ELSE Count(y),
                     !.acd = @ + (IF ~BurnIn /\ acc THEN 1 ELSE 0), !.rej = @ + (IF ~BurnIn /\ ~acc THEN 1 ELSE 0)]
\* what a proposal leads to
Target(v, k, q) ==
  LET y == Put(smp.x, v, k) old == Value(smp.x) new == Value(y)
  IN IF k = smp.x[v + 1] \/ Beats(smp.acc, new, old) \/ Accepts(old, new, q) THEN y ELSE smp.x
GibbsStep(v, k, q, ask) ==
  LET y == Target(v, k, q) IN MoveTo(y, y = Put(smp.x, v, k), TRUE, ask)
Stop == smp' = [smp EXCEPT !.ph = "ended"]
Reset == smp' = [smp EXCEPT !.x = smp.start, !.best = smp.start, !.ph = "idle"]
StartFrom(x) == smp' = [smp EXCEPT !.x = x, !.best = x, !.ph = "idle"]
-----------------------------------------------------------------------------
\* invariants
HistSum == smp.alg # "none" => \A i \in 1 .. Len(smp.ms) : SumSeq(smp.hist[i]) = smp.acd + smp.rej
BestIsNotWorse == smp.alg = "gibbs" => NotWorse(smp.acc, Value(smp.best), Value(smp.x)) /\ NotWorse(smp.acc, Value(smp.best), Value(smp.start))
ChainValid == smp.alg # "none" => Valid(smp.x) /\ Valid(smp.best)
StepsBounded == smp.alg # "none" => smp.n <= smp.steps + smp.burn
=============================================================================
