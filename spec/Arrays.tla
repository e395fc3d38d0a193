------------------------------- MODULE Arrays -------------------------------
(* Multi-dimensional arrays and strided views.                              *)
(* Memory is a set of blocks, one per array object; a view names a block, an *)
(* offset, a shape, strides and the order in which its elements are          *)
(* enumerated.  Every operation of the library is either a change of that    *)
(* geometry or a pointwise change of the cells the geometry selects.         *)
EXTENDS OGBase
\* order 1: last coordinate varies slowest (the default); order 0: first slowest
OStrides(sh, o) == [i \in 1 .. Len(sh) |-> IF o = 1 THEN ProdSeq(SubSeq(sh, 1, i - 1)) ELSE ProdSeq(SubSeq(sh, i + 1, Len(sh)))]
RECURSIVE DotFrom(_, _, _)
DotFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + DotFrom(a, b, i + 1)
Dot(a, b) == DotFrom(a, b, 1)
ToIndex(v, c) == Dot(c, OStrides(v.sh, v.o))
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
ToCoord(sh, o, k) == IF o = 1 THEN Unrank(sh, k) ELSE Rev(Unrank(Rev(sh), k))
NoSlot == [a |-> -1, off |-> 0, sh |-> <<>>, st |-> <<>>, o |-> 1]
Whole(a, sh, o) == [a |-> a, off |-> 0, sh |-> sh, st |-> OStrides(sh, o), o |-> o]
Simple(v) == v.st = OStrides(v.sh, v.o)
\* position (1-based) in the block of the element with index k
CellOf(v, c) == v.off + Dot(c, v.st) + 1
CellAt(v, k) == CellOf(v, ToCoord(v.sh, v.o, k))
Cells(v) == [k \in 1 .. Size(v.sh) |-> CellAt(v, k - 1)]
At(mem, v, c) == mem[v.a][CellOf(v, c)]
Content(mem, v) == LET m == mem[v.a] IN [k \in 1 .. Size(v.sh) |-> m[CellAt(v, k - 1)]]
\* the elements of v under coordinates enumerated in the order o
ContentIn(mem, v, o) == LET m == mem[v.a] IN [k \in 1 .. Size(v.sh) |-> m[CellOf(v, ToCoord(v.sh, o, k - 1))]]
Shares(v, w) == v.a = w.a /\ { CellAt(v, k) : k \in 0 .. Size(v.sh) - 1 } \cap { CellAt(w, k) : k \in 0 .. Size(w.sh) - 1 } # {}
\* ---- geometry
Perm(v, p) == [v EXCEPT !.sh = [i \in 1 .. Len(p) |-> v.sh[p[i] + 1]], !.st = [i \in 1 .. Len(p) |-> v.st[p[i] + 1]]]
Ident(n) == [i \in 1 .. n |-> i - 1]
Swap(n, i, j) == [Ident(n) EXCEPT ![i + 1] = j, ![j + 1] = i]
Shift(n, k) == [i \in 1 .. n |-> (i - 1 - k) % n]
Keep(v, K) == [v EXCEPT !.sh = [i \in 1 .. Len(K) |-> v.sh[K[i]]], !.st = [i \in 1 .. Len(K) |-> v.st[K[i]]]]
Squeeze(v) == Keep(v, SelectSeq([i \in 1 .. Len(v.sh) |-> i], LAMBDA i : v.sh[i] # 1))
Bound(v, d, x) == [Keep(v, SelectSeq([i \in 1 .. Len(v.sh) |-> i], LAMBDA i : i # d + 1)) EXCEPT !.off = v.off + x * v.st[d + 1]]
SubView(v, base, sh, o) == [v EXCEPT !.off = v.off + Dot(base, v.st), !.sh = sh, !.o = o]
Reshape(v, sh) == [v EXCEPT !.sh = sh, !.st = OStrides(sh, v.o)]
\* ---- pointwise change: cell at index k of v becomes F(k, coordinates)
Write(mem, v, vals) ==   \* vals[k + 1] for index k
  LET pos == Cells(v) IN
  [mem EXCEPT ![v.a] = [i \in 1 .. Len(@) |-> IF \E k \in 1 .. Len(pos) : pos[k] = i THEN vals[CHOOSE k \in 1 .. Len(pos) : pos[k] = i] ELSE @[i]]]
Arith(k, x, y) == CASE k = "add" -> x + y [] k = "sub" -> x - y [] k = "mul" -> x * y [] k = "set" -> y
\* expression in postfix form: <<0, slot>>, <<1, constant>>, <<2, _>> +, <<3, _>> -, <<4, _>> *, <<5, _>> negate
RECURSIVE EvalFrom(_, _, _, _, _, _)
EvalFrom(mem, sl, ex, c, i, stack) ==
  IF i > Len(ex) THEN stack[1]
  ELSE LET t == ex[i] n == Len(stack) IN
    CASE t[1] = 0 -> EvalFrom(mem, sl, ex, c, i + 1, Append(stack, At(mem, sl[t[2] + 1], c)))
      [] t[1] = 1 -> EvalFrom(mem, sl, ex, c, i + 1, Append(stack, t[2]))
      [] t[1] = 5 -> EvalFrom(mem, sl, ex, c, i + 1, [stack EXCEPT ![n] = -@])
      [] OTHER -> EvalFrom(mem, sl, ex, c, i + 1, Append(SubSeq(stack, 1, n - 2), Arith(<<"add", "sub", "mul">>[t[1] - 1], stack[n - 1], stack[n])))
Eval(mem, sl, ex, c) == EvalFrom(mem, sl, ex, c, 1, <<>>)
FirstSlot(sl, ex) == sl[SelectSeq(ex, LAMBDA t : t[1] = 0)[1][2] + 1]
\* ---- resizing keeps the common box and fills the rest
Resized(mem, v, sh, x) ==
  LET d == Min2(Len(v.sh), Len(sh))
      Old(c) == /\ \A i \in 1 .. d : c[i] < v.sh[i]
                /\ \A i \in d + 1 .. Len(sh) : c[i] = 0
      Src(c) == [i \in 1 .. Len(v.sh) |-> IF i <= d THEN c[i] ELSE 0] IN
  [k \in 1 .. Size(sh) |-> LET c == ToCoord(sh, v.o, k - 1) IN IF v.a # -1 /\ Old(c) THEN At(mem, v, Src(c)) ELSE x]
=============================================================================
