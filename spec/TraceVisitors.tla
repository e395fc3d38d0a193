---------------------------- MODULE TraceVisitors ---------------------------
(* Validates what visitors record, print and answer - fed by a scripted     *)
(* algorithm or by the real ones - against the state machines of Visitors.  *)
EXTENDS Visitors, TraceBase
New(e) == vis' = [NoVis EXCEPT !.kind = e.kind, !.nth = e.nth, !.gap = e.gap, !.mem = e.mem, !.pol = [polite |-> e.polite = 1, silent |-> e.silent = 1]]
Polite == vis.pol.polite
Silent == vis.pol.silent
\* out: the first word and the numbers of the first printed line
Nothing == [w |-> "", x |-> <<>>]
Output(e, want, n) == Chk("output", IF Silent THEN e.lines = 0 ELSE e.lines = n /\ e.out = want)
Talks == Prints \/ Protocols
Begin(e) ==
  /\ Chk("one begin", vis.ph \in {"idle", "ended"})
  /\ Output(e, IF Talks THEN [w |-> "begin:", x |-> <<e.v, e.b>>] ELSE Nothing, IF Talks THEN 1 ELSE 0)
  /\ VBegin(e.v, e.b, e.busy, e.span)
Close(e) == IF Polite THEN e.close ELSE Finite(e.v) /\ Finite(e.b) /\ Abs(e.v - e.b) <= vis.gap
Step(e) ==
  /\ Chk("steps between begin and end", vis.ph = "running")
  /\ Chk("obeys", Polite => vis.asked = CONTINUE)
  /\ Chk("flag", e.flag = Flag(Close(e), e.late))
  /\ Output(e, IF Talks /\ Visited THEN [w |-> "step:", x |-> <<vis.it * 1000, e.v, e.b>>] ELSE Nothing, IF Talks /\ Visited THEN (IF e.flag = CONTINUE THEN 1 ELSE 2) ELSE 0)
  /\ VStep(e.v, e.b, Close(e), e.late, e.busy, e.span)
End(e) ==
  /\ Chk("one end", vis.ph = "running")
  /\ Output(e, IF Talks THEN [w |-> IF Prints THEN "value" ELSE "end:", x |-> <<e.v, e.b>>] ELSE Nothing, IF Talks THEN 1 ELSE 0)
  /\ VEnd(e.v, e.b, e.busy, e.span)
LogPrinted == (vis.kind = "verbose" /\ vis.it > 0 /\ (vis.it - 1) % vis.nth = 0) \/ (vis.kind = "timing" /\ vis.fresh)
Log(e) ==
  /\ Output(e, IF LogPrinted THEN [w |-> e.n, x |-> <<e.x>>] ELSE Nothing, IF LogPrinted THEN 1 ELSE 0)
  /\ VLog(e.n, e.x)
\* times: zero at every begin, never falling otherwise
TimesOK(ts) ==
  /\ Len(ts) = Len(vis.rows)
  /\ \A i \in 1 .. Len(ts) : ts[i] >= 0 /\ (vis.rows[i].k = "begin" => ts[i] = 0)
  /\ \A i, j \in 1 .. Len(ts) : (i < j /\ vis.rows[i].k # "begin" /\ vis.rows[j].k # "begin") => ts[i] <= ts[j]
  \* all the time between begin and end, nothing twice (up to rounding)
  /\ \A i \in 1 .. Len(ts) : vis.rows[i].k # "begin" => ts[i] + 1000 >= vis.rows[i].busy /\ ts[i] <= vis.rows[i].span + 1000
Columns(e) ==
  /\ Chk("values", e.values = Column(LAMBDA r : r.v))
  /\ Chk("bounds", e.bounds = Column(LAMBDA r : r.b))
  \* the last row of a run that was stopped may or may not count the last step
  /\ Chk("iterations", Len(e.its) = Len(vis.rows) /\ \A i \in 1 .. Len(e.its) : e.its[i] = vis.rows[i].it)
  /\ Chk("times", TimesOK(e.times))
  /\ Chk("construction", Len(e.ctimes) = vis.begins /\ \A i \in 1 .. Len(e.ctimes) : e.ctimes[i] >= 0)
  /\ Chk("logs", vis.kind = "timing" => e.logs = vis.logs)
  /\ Chk("map", e.mapok)
  /\ Chk("memory", IF vis.mem = 0 THEN e.mem = <<>> ELSE Len(e.mem) = Len(vis.rows) /\ \A i \in 1 .. Len(e.mem) : IF MemMeasured(vis.rows[i]) THEN e.mem[i] > 0 ELSE e.mem[i] = NaNv)
\* after the run of an algorithm: what it reports is what it showed last
\* status: 0 unknown, 1 normal, 2 stopped from outside, 3 converged
After(e) ==
  /\ Chk("run complete", vis.ph = "ended")
  /\ Chk("as shown last", (e.hasv => e.v = vis.rows[Len(vis.rows)].v) /\ e.b = vis.rows[Len(vis.rows)].b)
  /\ Chk("status", e.st \in {0, 1, 2, 3} /\ (vis.asked = CONTINUE => e.st # 2))
TraceStep(e) ==
  CASE e.op = "visitor" -> New(e)
    [] e.op = "begin" -> Begin(e)
    [] e.op = "step" -> Step(e)
    [] e.op = "end" -> End(e)
    [] e.op = "addlog" -> VAddLog(e.n)
    [] e.op = "log" -> Log(e)
    [] e.op = "columns" -> Columns(e) /\ UNCHANGED vis
    [] e.op = "after" -> After(e) /\ UNCHANGED vis
    [] OTHER -> FALSE
TraceInit == TInit /\ vis = NoVis
TraceNext == (TEvent /\ TraceStep(Ev)) \/ (TDone /\ UNCHANGED vis)
=============================================================================
