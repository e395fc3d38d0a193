----------------------------- MODULE MCVisitors -----------------------------
(* All short histories of a protocolling visitor fed by an algorithm that   *)
(* honours its requests: the protocol is complete and in order.             *)
EXTENDS Visitors
CONSTANTS MaxRuns, MaxSteps, MaxNth
VARIABLES steps, now
vars == <<vis, steps, now>>
Vals == {0, 1}
Init == /\ steps = 0 /\ now = 0 /\ vis \in {[NoVis EXCEPT !.kind = k, !.nth = n] : k \in {"timing", "etiming", "verbose"}, n \in 1 .. MaxNth}
Idle == vis.ph \in {"idle", "ended"} /\ vis.begins < MaxRuns
Next ==
  \/ Idle /\ \E v \in Vals : VBegin(v, 0, now, now) /\ steps' = 0 /\ UNCHANGED now
  \/ vis.ph = "running" /\ vis.asked = CONTINUE /\ steps < MaxSteps /\ now' = now + 1 /\ steps' = steps + 1 /\ \E v, late \in {0, 1} : VStep(v, 0, v = 0, late = 1, now', now')
  \/ vis.ph = "running" /\ now' = now + 1 /\ VEnd(1, 0, now', now') /\ UNCHANGED steps
  \/ Len(vis.names) < 2 /\ \E n \in {"a", "b"} : VAddLog(n) /\ UNCHANGED <<steps, now>>
  \/ vis.fresh /\ \E i \in DOMAIN vis.names : VLog(vis.names[i], 7) /\ UNCHANGED <<steps, now>>
Spec == Init /\ [][Next]_vars
Kinds == [i \in 1 .. Len(vis.rows) |-> vis.rows[i].k]
Count(k) == Cardinality({i \in DOMAIN Kinds : Kinds[i] = k})
\* rows of a protocol: every run is one begin, steps, one end
InOrder == \A i \in DOMAIN Kinds :
  /\ Kinds[i] = "begin" => (i = 1 \/ Kinds[i - 1] = "end")
  /\ Kinds[i] \in {"step", "end"} => i > 1 /\ Kinds[i - 1] # "end"
OneEach == Protocols => Count("begin") = vis.begins /\ Count("end") = vis.begins - (IF vis.ph = "running" THEN 1 ELSE 0)
Iterations == \A i, j \in DOMAIN vis.rows : i < j => vis.rows[i].it <= vis.rows[j].it
EveryNth == \A i \in DOMAIN vis.rows : vis.rows[i].k = "step" => vis.rows[i].it % vis.nth = 0
LogsMatch == \A i \in DOMAIN vis.logs : Len(vis.logs[i]) <= Count("step")
Silent == ~Protocols => vis.rows = <<>> /\ vis.asked = CONTINUE
=============================================================================
