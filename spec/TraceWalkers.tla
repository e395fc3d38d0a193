---------------------------- MODULE TraceWalkers ----------------------------
EXTENDS Walkers, TraceBase
VARIABLES r
tvars == <<w, it, sq, r>>
\* several scopes walked together: c over the union, ca and cb over its parts
Parts(e, c) == /\ Chk("tuple", e.c = c)
               /\ Chk("part-a", "ca" \in DOMAIN e => e.ca = Project(c, w.va, w.vs))
               /\ Chk("part-b", "cb" \in DOMAIN e => e.cb = Project(c, w.vb, w.vs))
WEvent(e) ==
  CASE e.op = "walk" -> LET x == [s |-> e.s, o |-> e.o, f |-> e.f, c |-> Start(e.s, e.f, e.o), vs |-> e.vs, va |-> e.va, vb |-> e.vb] IN
                        w' = x /\ r' = 0 /\ UNCHANGED <<it, sq>>
    [] e.op = "at" -> Parts(e, w.c) /\ UNCHANGED tvars
    [] e.op = "step" -> LET c == Nth(w.s, w.f, w.o, r + 1) IN w' = [w EXCEPT !.c = c] /\ r' = r + 1 /\ UNCHANGED <<it, sq>>
    [] e.op = "back" -> w' = [w EXCEPT !.c = Start(w.s, w.f, w.o)] /\ r' = 0 /\ UNCHANGED <<it, sq>>
    [] e.op = "wsize" -> Chk("sub-size", e.n = WalkSize(w.s, w.f)) /\ UNCHANGED tvars
    [] e.op = "end" -> Chk("all-visited", r + 1 = WalkSize(w.s, w.f)) /\ UNCHANGED tvars
    [] OTHER -> FALSE
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
IEvent(e) ==
  CASE e.op = "seq" -> sq' = e.v /\ it' = <<0, 0>> /\ Chk("length", e.n = Len(e.v)) /\ UNCHANGED <<w, r>>
    [] e.op = "write" -> sq' = [sq EXCEPT ![it[e.i] + e.n + 1] = e.x] /\ UNCHANGED <<w, r, it>>
    [] e.op = "pre" -> it' = [it EXCEPT ![e.i] = @ + e.n] /\ Chk("value", e.at # -99 => e.at = At(it[e.i] + e.n)) /\ UNCHANGED <<w, r, sq>>     \* at: the value where the result points, -99 at the end
    [] e.op = "post" -> it' = [it EXCEPT ![e.i] = @ + e.n] /\ Chk("old-value", e.at # -99 => e.at = At(it[e.i])) /\ UNCHANGED <<w, r, sq>>
    [] e.op = "set" -> it' = [it EXCEPT ![e.i] = it[e.k] + e.n] /\ UNCHANGED <<w, r, sq>>       \* i := k + n
    [] e.op = "look" -> /\ Chk("deref", e.at # -99 => e.at = At(it[e.i]) /\ e.cat = e.at /\ e.ar = e.at)
                        /\ Chk("offset", e.off # -99 => e.off = At(it[e.i] + e.n) /\ e.coff = e.off)
                        /\ UNCHANGED tvars
    [] e.op = "cmp" -> /\ Chk("compare", LET s == Sign(it[1], it[2]) IN
                               e.eq = (s = 0) /\ e.ne = (s # 0) /\ e.lt = (s < 0) /\ e.gt = (s > 0) /\ e.le = (s <= 0) /\ e.ge = (s >= 0))
                       /\ Chk("difference", e.d = it[1] - it[2])
                       /\ UNCHANGED tvars
    [] OTHER -> FALSE
TraceInit == TInit /\ w = [s |-> <<>>, o |-> "first", f |-> <<>>, c |-> <<>>] /\ it = <<0, 0>> /\ sq = <<>> /\ r = 0
WOps == {"walk", "at", "step", "back", "wsize", "end"}
TraceNext == (TEvent /\ (IF Ev.op \in WOps THEN WEvent(Ev) ELSE IEvent(Ev))) \/ (TDone /\ UNCHANGED tvars)
=============================================================================
