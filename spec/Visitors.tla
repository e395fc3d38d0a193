------------------------------ MODULE Visitors ------------------------------
(* Visitors as state machines.  A visitor is told the value and the bound   *)
(* at the begin, at every step and at the end of a run; it may ask the      *)
(* algorithm to stop.  Protocolling visitors keep a row per begin, end and  *)
(* every nth step; a row holds value, bound, iteration and cumulative time; *)
(* further quantities have one entry per protocolled step.                  *)
(* Values and bounds are scaled by 1000.                                    *)
EXTENDS OGBase
VARIABLE vis
NaNv == 2000000003
Infv == 2000000001
Finite(x) == x \notin {NaNv, Infv, -Infv}
NoVis == [kind |-> "none", nth |-> 1, gap |-> 0, mem |-> 0, ph |-> "idle", it |-> 0, rows |-> <<>>, logs |-> <<>>, names |-> <<>>, fresh |-> FALSE, asked |-> 0, begins |-> 0, stops |-> 0, pol |-> [polite |-> FALSE, silent |-> TRUE]]
Protocols == vis.kind \in {"timing", "etiming"}
Prints == vis.kind \in {"verbose", "everbose"}
CONTINUE == 0  BOUNDREACHED == 1  TIMEOUTREACHED == 2
\* busy: CPU time known to have passed within runs; span: since the visitor exists
Row(v, b, k, busy, span) == [v |-> v, b |-> b, it |-> vis.it, k |-> k, busy |-> busy, span |-> span]
Visited == vis.it % vis.nth = 0
VBegin(v, b, busy, span) == vis' = [vis EXCEPT !.ph = "running", !.rows = IF Protocols THEN Append(@, Row(v, b, "begin", busy, span)) ELSE @, !.it = @ + 1, !.fresh = FALSE, !.asked = 0, !.begins = @ + 1]
Flag(close, late) == IF Protocols /\ Visited THEN (IF close THEN BOUNDREACHED ELSE IF late THEN TIMEOUTREACHED ELSE CONTINUE) ELSE CONTINUE
VStep(v, b, close, late, busy, span) ==
  vis' = [vis EXCEPT !.rows = IF Protocols /\ Visited THEN Append(@, Row(v, b, "step", busy, span)) ELSE @,
                     !.logs = IF Protocols /\ Visited THEN [i \in DOMAIN @ |-> Append(@[i], NaNv)] ELSE @,
                     !.fresh = Visited, !.asked = Flag(close, late), !.it = IF Flag(close, late) = CONTINUE THEN @ + 1 ELSE @]
VEnd(v, b, busy, span) == vis' = [vis EXCEPT !.ph = "ended", !.rows = IF Protocols THEN Append(@, Row(v, b, "end", busy, span)) ELSE @]
\* a new quantity; one that is known keeps its entries
VAddLog(n) == vis' = IF vis.kind # "timing" \/ n \in SeqSet(vis.names) THEN vis ELSE [vis EXCEPT !.names = Append(@, n), !.logs = Append(@, <<>>)]
LogOf(n) == CHOOSE i \in 1 .. Len(vis.names) : vis.names[i] = n
VLog(n, x) == vis' = IF vis.kind = "timing" /\ vis.fresh THEN [vis EXCEPT !.logs = [@ EXCEPT ![LogOf(n)] = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)] = x]]] ELSE vis
\* rows where memory is measured
MemMeasured(r) == vis.mem = 2 \/ r.k # "step"
Column(F(_)) == [i \in 1 .. Len(vis.rows) |-> F(vis.rows[i])]
=============================================================================
