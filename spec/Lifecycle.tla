------------------------------ MODULE Lifecycle -----------------------------
(* The life of inference objects.  Several objects of one algorithm, with   *)
(* equal parameters, work on the same model or on equal ones, their calls   *)
(* interleaved.  What an object will answer depends on its history only:    *)
(* hist[o] is the sequence of calls that matter since it was as new, and    *)
(* memo remembers the outcome of the first object that had some history -   *)
(* every other object with this history has to have the same outcome.       *)
EXTENDS ModelBase
VARIABLES alg, obj, memo
lvars == <<alg, obj, memo>>
lmvars == <<opr, sp, fa, tab>>
NORMAL == 1
\* a run does not depend on what was run before
Memoryless(s) == s \in {"bruteforce", "astar", "dynprog", "graphcut", "partitionmove", "reduced"}
\* a starting labeling replaces all that happened before (expansion and swap
\* moves, in contrast, go on with the label or labels that are next)
ByStart(s) == s \in {"icm", "lazyflipper"}
ShowsStart(s) == ByStart(s) \/ s \in {"alphaexpansion", "alphabetaswap", "expansionfusion"}
HasStart(s) == ShowsStart(s) \/ s \in {"infandflip", "hqpbo", "partitionmove"}
NoObj == [made |-> FALSE, hist |-> <<>>, out |-> [st |-> -1, x |-> <<>>, v |-> 0, b |-> 0]]
LInit == alg = "none" /\ obj = [i \in 1 .. 3 |-> NoObj] /\ memo = {}
Known(h) == { m \in memo : m.h = h }
\* outcomes after history h
Agrees(h, o) == \A m \in Known(h) : m.o = o
Remember(h, o) == memo' = memo \cup {[h |-> h, o |-> o]}
\* constructed, reset: as new; o: what is reported now
AsNew(i, o) == obj' = [obj EXCEPT ![i] = [made |-> TRUE, hist |-> <<>>, out |-> o]] /\ Remember(<<>>, o)
Call(t, x) == [t |-> t, x |-> x]
StartHist(i, x) == IF ByStart(alg) THEN <<Call("start", x)>> ELSE Append(obj[i].hist, Call("start", x))
LStart(i, x, o) == obj' = [obj EXCEPT ![i].hist = StartHist(i, x), ![i].out = o] /\ Remember(StartHist(i, x), o)
RunHist(i) == IF Memoryless(alg) THEN <<Call("run", <<>>)>> ELSE Append(obj[i].hist, Call("run", <<>>))
LRun(i, o) == obj' = [obj EXCEPT ![i].hist = RunHist(i), ![i].out = o] /\ Remember(RunHist(i), o)
=============================================================================
