--------------------------- MODULE TraceContainers --------------------------
EXTENDS Containers, TraceBase
\* ---- sequences: three objects; every event shows the contents of all of them
SeqAfter(e) ==
  LET s == seqs[e.o] IN
  CASE e.k = "new"     -> <<>>
    [] e.k = "sized"   -> e.v                     \* constructed with Len(v) elements, then written
    [] e.k = "filled"  -> [i \in 1 .. e.n |-> e.x]
    [] e.k = "copy"    -> seqs[e.p]
    [] e.k = "assign"  -> seqs[e.p]
    [] e.k = "push"    -> Append(s, e.x)
    [] e.k = "pushown" -> Append(s, s[e.n + 1])
    [] e.k = "resize"  -> SubSeq(s, 1, Min2(e.n, Len(s))) \o e.v   \* new elements are written at once
    [] e.k = "reserve" -> s
    [] e.k = "clear"   -> <<>>
    [] e.k = "range"   -> e.v
    [] e.k = "write"   -> [s EXCEPT ![e.n + 1] = e.x]
SeqEvent(e) ==
  LET n == SeqAfter(e) after == Put(seqs, e.o, n) IN
  /\ Chk("contents", \A o \in 1 .. 3 : e.c[o] = after[o])
  /\ Chk("iterators", \A o \in 1 .. 3 : e.it[o] = after[o])
  /\ Chk("size", e.sz = [o \in 1 .. 3 |-> Len(after[o])])
  /\ Chk("empty", e.em = [o \in 1 .. 3 |-> B2I(after[o] = <<>>)])
  /\ Chk("ends", n # <<>> => e.fr = n[1] /\ e.ba = n[Len(n)])
  /\ Chk("resize-size", e.k = "resize" => Len(n) = e.n)
\* ---- sets
SetAfter(e) ==
  LET d == IF e.o \in DOMAIN sets THEN sets[e.o].d ELSE 0
      s == IF e.o \in DOMAIN sets THEN sets[e.o].s ELSE <<>> IN
  CASE e.k = "new"    -> [d |-> e.d, s |-> <<>>]
    [] e.k = "from"   -> [d |-> e.d, s |-> InsAll(e.d, <<>>, e.v)]
    [] e.k \in {"copy", "assign"} -> sets[e.p]
    [] e.k \in {"ins", "hint"} -> [d |-> d, s |-> Ins(d, s, e.x)]
    [] e.k = "insall" -> [d |-> d, s |-> InsAll(d, s, e.v)]
    [] e.k = "del"    -> [d |-> d, s |-> IF Member(d, s, e.x) THEN DelRange(s, LowerPos(d, s, e.x), LowerPos(d, s, e.x) + 1) ELSE s]
    [] e.k = "delat"  -> [d |-> d, s |-> DelRange(s, e.n, e.n + 1)]
    [] e.k = "delrange" -> [d |-> d, s |-> DelRange(s, e.n, e.m)]
    [] e.k = "clear"  -> [d |-> d, s |-> <<>>]
    [] e.k = "reserve" -> [d |-> d, s |-> s]
    [] e.k = "fromset" -> [d |-> d, s |-> e.v]       \* v is sorted and duplicate free for d
    [] e.k = "swap"   -> sets[e.p]
    [] e.k = "query"  -> [d |-> d, s |-> s]
SetReport(e) ==
  LET d == sets[e.o].d s == sets[e.o].s IN
  CASE e.k = "ins" -> /\ Chk("inserted", e.ok = ~Member(d, s, e.x))
                      /\ Chk("insert-position", e.pos = LowerPos(d, s, e.x))
    [] e.k = "hint" -> Chk("insert-position", e.pos = LowerPos(d, s, e.x))
    [] e.k = "del" -> Chk("erased", e.ok = Member(d, s, e.x))
    [] e.k = "reserve" -> Chk("capacity", e.cap >= e.n)
    [] e.k = "query" ->
         /\ Chk("find", e.find = FindPos(d, s, e.x) /\ e.cfind = e.find)
         /\ Chk("count", e.count = B2I(Member(d, s, e.x)))
         /\ Chk("lower", e.lo = LowerPos(d, s, e.x) /\ e.clo = e.lo)
         /\ Chk("upper", e.up = UpperPos(d, s, e.x) /\ e.cup = e.up)
         /\ Chk("range", e.r1 = LowerPos(d, s, e.x) /\ e.r2 = UpperPos(d, s, e.x) /\ e.cr1 = e.r1 /\ e.cr2 = e.r2)
         /\ Chk("compare", e.lt = Before(d, e.x, e.y) /\ e.vlt = e.lt)
    [] OTHER -> TRUE
SetEvent(e) ==
  LET n == SetAfter(e) IN
  /\ Chk("report", e.o \in DOMAIN sets => SetReport(e))
  /\ Chk("contents", e.c = n.s)
  /\ Chk("iterators", e.it = n.s /\ e.cit = n.s)
  /\ Chk("reverse", e.rev = Reverse(n.s) /\ e.crev = e.rev)
  /\ Chk("size", e.sz = Len(n.s) /\ e.em = (n.s = <<>>))
ConStep(e) ==
  CASE e.op = "seq" -> SeqEvent(e) /\ seqs' = Put(seqs, e.o, SeqAfter(e)) /\ UNCHANGED sets
    [] e.op = "set" -> /\ SetEvent(e)
                       /\ sets' = (IF e.k = "swap" THEN [i \in DOMAIN sets |-> IF i = e.o THEN sets[e.p] ELSE IF i = e.p THEN sets[e.o] ELSE sets[i]]
                                   ELSE Put(sets, e.o, SetAfter(e)))
                       /\ UNCHANGED seqs
    [] e.op = "live" -> Chk("leak", e.n = 0) /\ UNCHANGED kvars
    [] OTHER -> FALSE
TraceInit == TInit /\ sets = <<>> /\ seqs = [o \in 1 .. 3 |-> <<>>]
TraceNext == (TEvent /\ ConStep(Ev)) \/ (TDone /\ UNCHANGED kvars)
\* TRACE-INVARIANTS SetsOK
=============================================================================
