---------------------------- MODULE TraceArrays -----------------------------
EXTENDS Arrays, TraceBase
\* slots 0..2 own memory blocks 1..3, slots 3..6 are views on one of them
VARIABLES mem, sl
NArr == 3
S(k) == sl[k + 1]
IsArr(k) == k < NArr
\* slot k receives a new block: every view on the old one is gone
Own(k, g, vals) ==
  /\ mem' = [mem EXCEPT ![k + 1] = vals]
  /\ sl' = [i \in 1 .. Len(sl) |-> IF i = k + 1 THEN g ELSE IF sl[i].a = k + 1 THEN NoSlot ELSE sl[i]]
Rebind(k, g) == sl' = [sl EXCEPT ![k + 1] = g] /\ UNCHANGED mem
Put(k, vals) == mem' = Write(mem, S(k), vals) /\ UNCHANGED sl
Geo(e) ==
  LET v == S(e.f) n == Len(v.sh) IN
  CASE e.k = "sub" -> SubView(v, e.b, e.sh, e.o)
    [] e.k = "bound" -> Bound(v, e.x, e.y)
    [] e.k = "permute" -> Perm(v, e.b)
    [] e.k = "swap" -> Perm(v, Swap(n, e.x, e.y))
    [] e.k = "transpose" -> Perm(v, Rev(Ident(n)))
    [] e.k = "shift" -> Perm(v, Shift(n, e.x))
    [] e.k = "squeeze" -> Squeeze(v)
    [] e.k = "reshape" -> Reshape(v, e.sh)
    [] e.k = "same" -> v
    [] e.k = "memory" -> [a |-> v.a, off |-> 0, sh |-> e.sh, st |-> OStrides(e.sh, e.x), o |-> e.o]
    [] e.k = "strided" -> [a |-> v.a, off |-> 0, sh |-> e.sh, st |-> e.b, o |-> e.o]
Dump(e) ==
  LET v == S(e.s) n == Size(v.sh) IN
  /\ Chk("shape", e.sh = v.sh /\ e.dim = Len(v.sh) /\ e.sz = n)
  /\ Chk("strides", e.st = v.st)
  /\ Chk("order", e.o = v.o)
  /\ Chk("simple", (e.sim => Simple(v)) /\ (IsArr(e.s) => e.sim))
  /\ Chk("by-coordinates", e.co = ContentIn(mem, v, 1))
  /\ Chk("by-coordinate-iterator", e.cv = e.co)
  /\ Chk("by-index", e.ix = Content(mem, v))
  /\ Chk("by-iterator", e.it = e.ix /\ e.ci = e.ix)
  /\ Chk("by-reverse-iterator", e.ri = Rev(e.ix))
  /\ Chk("iterator-coordinates", e.cc = [k \in 1 .. n |-> ToIndex(v, ToCoord(v.sh, v.o, k - 1))])
  /\ Chk("index-of-coordinates", e.ti = [k \in 1 .. n |-> ToIndex(v, ToCoord(v.sh, 1, k - 1))])
  /\ Chk("coordinates-of-index", e.fi = e.cc)
  /\ Chk("offset-of-index", e.of = [k \in 1 .. n |-> CellAt(v, k - 1) - v.off - 1])
\* an iterator walk: <<step kind, argument, index afterwards, value there (if any), value at [argument 2]>>
RECURSIVE WalkOK(_, _, _, _)
WalkOK(v, ws, i, at) ==
  IF i > Len(ws) THEN TRUE
  ELSE LET w == ws[i] n == Size(v.sh)
           to == CASE w[1] = 0 -> at + 1 [] w[1] = 1 -> at - 1 [] w[1] = 2 -> Min2(n, at + w[2]) [] w[1] = 3 -> at - w[2] [] w[1] = 4 -> n [] w[1] = 5 -> 0 IN
       /\ Chk("iterator-index", w[3] = to)
       /\ Chk("iterator-more", w[4] = (IF to < n THEN 1 ELSE 0))
       /\ Chk("iterator-value", to < n => w[5] = mem[v.a][CellAt(v, to)])
       /\ Chk("iterator-coordinate", to < n => w[6] = to)
       /\ Chk("iterator-offset-access", w[7] < n => w[8] = mem[v.a][CellAt(v, w[7])])
       /\ Chk("iterator-distance", w[9] = to /\ w[10] = n - to)
       /\ WalkOK(v, ws, i + 1, to)
Observe(e) ==
  CASE e.op = "dump" -> Dump(e)
    [] e.op = "walk" -> WalkOK(S(e.s), e.w, 1, 0)
    [] e.op = "overlap" -> Chk("overlap", (Shares(S(e.s), S(e.f)) => e.t) /\ (S(e.s).a # S(e.f).a => ~e.t))
    [] e.op = "convert" -> Chk("converted", e.v = Content(mem, S(e.s)) /\ e.sh = S(e.s).sh /\ e.o = S(e.s).o)
    [] e.op = "refused" -> Chk("refused", e.t)
    [] OTHER -> FALSE
TraceInit == TInit /\ mem = <<<<>>, <<>>, <<>>>> /\ sl = [i \in 1 .. 7 |-> NoSlot]
TraceNext == \/ TDone /\ UNCHANGED <<mem, sl>>
             \/ /\ TEvent
                /\ LET e == Ev IN
                   CASE e.op = "new" -> Own(e.s, Whole(e.s + 1, e.sh, e.o), [k \in 1 .. Size(e.sh) |-> e.x])
                     [] e.op = "blank" -> Own(e.s, NoSlot, <<>>)
                     [] e.op \in {"copy", "convertin"} -> Own(e.s, Whole(e.s + 1, S(e.f).sh, S(e.f).o), Content(mem, S(e.f)))
                     [] e.op = "resize" -> Own(e.s, Whole(e.s + 1, e.sh, S(e.s).o), Resized(mem, S(e.s), e.sh, e.x))
                     [] e.op = "reshapearr" -> Own(e.s, Whole(e.s + 1, e.sh, S(e.s).o), mem[e.s + 1])
                     [] e.op = "geo" -> Rebind(e.s, Geo(e))
                     [] e.op = "put" -> Put(e.s, [Content(mem, S(e.s)) EXCEPT ![e.i + 1] = e.x])
                     [] e.op = "fill" -> Put(e.s, e.v)
                     [] e.op = "arith" -> LET v == S(e.s) w == S(e.f) IN
                          Put(e.s, [k \in 1 .. Size(v.sh) |-> LET c == ToCoord(v.sh, v.o, k - 1) IN Arith(e.k, At(mem, v, c), IF w.sh = <<>> THEN mem[w.a][w.off + 1] ELSE At(mem, w, c))])
                     [] e.op = "scalar" -> Put(e.s, [k \in 1 .. Size(S(e.s).sh) |-> Arith(e.k, Content(mem, S(e.s))[k], e.x)])
                     [] e.op = "expr" -> LET w == FirstSlot(sl, e.ex) sh == IF e.n THEN w.sh ELSE S(e.s).sh o == IF e.n THEN w.o ELSE S(e.s).o
                                             vals == [k \in 1 .. Size(sh) |-> LET c == ToCoord(sh, o, k - 1) y == Eval(mem, sl, e.ex, c) IN IF e.n THEN y ELSE Arith(e.k, At(mem, S(e.s), c), y)] IN
                          IF e.n THEN Own(e.s, Whole(e.s + 1, sh, o), vals) ELSE Put(e.s, vals)
                     [] OTHER -> Observe(e) /\ UNCHANGED <<mem, sl>>
=============================================================================
