----------------------------- MODULE MCLifecycle ----------------------------
(* Two toy algorithms - steepest descent with warm start, and exhaustive    *)
(* search - as objects with an internal state, living all short lives.      *)
(* Whatever the interleaving, equal histories have equal outcomes, i.e. the *)
(* histories of Lifecycle are a sufficient summary of such objects; and a   *)
(* run never makes anything worse.                                          *)
EXTENDS Lifecycle
CONSTANT MaxCalls
VARIABLES state, calls
vars == <<lmvars, lvars, state, calls>>
Space == <<2, 2>>
Values == {<<3, 1, 2, 0>>, <<0, 2, 2, 1>>, <<1, 1, 1, 1>>}
Default == <<0, 0>>
All == { Labelings(sp)[r] : r \in DOMAIN Labelings(sp) }
Neighbours(x) == { y \in All : Cardinality({ i \in 1 .. Len(x) : x[i] # y[i] }) <= 1 }
Descend(x) == CHOOSE y \in Neighbours(x) : \A z \in Neighbours(x) : Value(y) < Value(z) \/ (Value(y) = Value(z) /\ Rank(sp, y) <= Rank(sp, z))
Best0 == CHOOSE y \in All : Value(y) = Opt("min") /\ \A z \in All : Value(z) = Opt("min") => Rank(sp, y) <= Rank(sp, z)
Outcome(x) == [st |-> NORMAL, x |-> x, v |-> Value(x), b |-> 0]
Ran(x) == IF alg = "icm" THEN Descend(x) ELSE Best0
Init ==
  /\ opr = "add" /\ sp = Space /\ fa = <<>> /\ tab \in Values
  /\ alg \in {"icm", "bruteforce"} /\ obj = [i \in 1 .. 3 |-> NoObj] /\ memo = {}
  /\ state = [i \in 1 .. 2 |-> Default] /\ calls = 0
New(i) == /\ state' = [state EXCEPT ![i] = Default] /\ AsNew(i, Outcome(Default))
Begin(i, x) == alg = "icm" /\ state' = [state EXCEPT ![i] = x] /\ LStart(i, x, Outcome(x))
Run(i) == state' = [state EXCEPT ![i] = Ran(state[i])] /\ LRun(i, Outcome(Ran(state[i])))
Next == calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<lmvars, alg>> /\ \E i \in 1 .. 2 :
  IF ~obj[i].made THEN New(i) ELSE New(i) \/ Run(i) \/ \E x \in All : Begin(i, x)
Spec == Init /\ [][Next]_vars
Function == \A a, b \in memo : a.h = b.h => a.o = b.o
Consistent == \A i \in 1 .. 2 : obj[i].made => (Agrees(obj[i].hist, obj[i].out) /\ obj[i].out = Outcome(state[i]))
NeverWorse == [][\A i \in 1 .. 2 : (obj[i].made /\ obj'[i].hist = RunHist(i) /\ obj'[i].hist # obj[i].hist /\ obj'[i].hist # <<>>) => obj'[i].out.v <= obj[i].out.v]_vars
=============================================================================
