--------------------------- MODULE TracePartition ----------------------------
(* Partition moves: every clustering shown is valid with its exact cost, no *)
(* step makes it worse, and the solver stops at one its moves cannot improve.*)
EXTENDS Partitioning, TraceBase
VARIABLES ok, cur, ph, asked
tvars == <<n, L, w, c, ok, cur, ph, asked>>
At(f, t, y) == t[Rank(f.s, y) + 1]
IsPotts(f, t) == LET d == t[1] o == At(f, t, <<1, 0>>) IN \A r \in 1 .. Len(t) : t[r] = IF (r - 1) % f.s[1] = (r - 1) \div f.s[1] THEN d ELSE o
Graph(e) ==
  LET m == Len(e.sp) ts == TLCEval([i \in 1 .. Len(e.fn) |-> FTable(e.fn[i])])
      orders == \A i \in 1 .. Len(e.fv) : Len(e.fv[i]) \in {0, 2}
      good == orders /\ (\A i \in 1 .. m : e.sp[i] >= m) /\ \A i \in 1 .. Len(e.fv) : Len(e.fv[i]) = 2 => IsPotts(e.fn[i], ts[i])
  IN /\ n' = m /\ L' = MinSeq(e.sp) /\ ok' = good
     /\ w' = IF ~good THEN <<>> ELSE TLCEval([p \in Pairs(m) |-> SumSeq([i \in 1 .. Len(e.fv) |-> IF Len(e.fv[i]) = 2 /\ e.fv[i][1] = p[1] /\ e.fv[i][2] = p[2] THEN At(e.fn[i], ts[i], <<0, 1>>) - At(e.fn[i], ts[i], <<0, 0>>) ELSE 0])])
     /\ c' = IF ~good THEN 0 ELSE SumSeq([i \in 1 .. Len(e.fv) |-> ts[i][1]])
     /\ cur' = <<>> /\ ph' = "none" /\ asked' = FALSE
Shown(e) == Chk("valid", e.st = 1 /\ ValidLabels(e.x)) /\ Chk("value", e.v = Cost(e.x)) /\ Chk("not worse", cur # <<>> => e.v <= Cost(cur))
PStep(e) ==
  CASE e.op = "model" -> Graph(e)
    [] e.op = "built" -> Chk("accepted", e.ok = ok) /\ UNCHANGED tvars
    [] e.op = "new" -> ok /\ Shown(e) /\ cur' = e.x /\ ph' = "idle" /\ UNCHANGED <<n, L, w, c, ok, asked>>
    [] e.op = "run" -> Chk("idle", ph = "idle") /\ ph' = (IF e.vis = 1 THEN "ready" ELSE "blind") /\ asked' = FALSE /\ UNCHANGED <<n, L, w, c, ok, cur>>
    [] e.op = "begin" -> Chk("begin", ph = "ready") /\ Shown(e) /\ Chk("start", e.x = cur) /\ ph' = "running" /\ cur' = e.x /\ UNCHANGED <<n, L, w, c, ok, asked>>
    [] e.op = "step" -> Chk("step", ph = "running" /\ ~asked) /\ Shown(e) /\ cur' = e.x /\ asked' = (e.ask # 0) /\ UNCHANGED <<n, L, w, c, ok, ph>>
    [] e.op = "end" -> Chk("end", ph = "running") /\ Shown(e) /\ Chk("end shows the result", e.x = cur) /\ ph' = "ended" /\ UNCHANGED <<n, L, w, c, ok, cur, asked>>
    [] e.op = "ret" -> Chk("return", ph \in {"ended", "blind"} /\ (asked \/ e.st \in {1, 3})) /\ ph' = "returned" /\ UNCHANGED <<n, L, w, c, ok, cur, asked>>
    [] e.op = "res" -> /\ Chk("result", ph = "returned") /\ Shown(e)
                       /\ Chk("bound", e.b \in {NEGINF, -TooBig} \/ (n <= 6 /\ e.b <= 1000 * OptCost + 5))
                       /\ Chk("single optimal", ~asked => SingleOptimal(e.x))
                       /\ Chk("Kernighan-Lin optimal", ~asked => KLOptimal(e.x))
                       /\ ph' = "idle" /\ cur' = e.x /\ UNCHANGED <<n, L, w, c, ok, asked>>
    [] e.op = "beyond" -> Chk("beyond", e.st # 1) /\ UNCHANGED tvars
    [] e.op = "untouched" -> Chk("untouched", e.ok) /\ UNCHANGED tvars
    [] OTHER -> FALSE
TraceInit == TInit /\ n = 0 /\ L = 0 /\ w = <<>> /\ c = 0 /\ ok = FALSE /\ cur = <<>> /\ ph = "none" /\ asked = FALSE
TraceNext == (TEvent /\ PStep(Ev)) \/ (TDone /\ UNCHANGED tvars)
=============================================================================
