-------------------------------- MODULE Views -------------------------------
(* A world of functions that refer to one another.  ent is a sequence of    *)
(* entities; entity i may refer only to entities with smaller numbers:      *)
(*   tab    a value table of its own (a model's factor)                     *)
(*   arr    a value table that can change (an offset array)                 *)
(*   learn  sum over j of weight[ws[j]] * fs[j][x] with the shared weights  *)
(*   const  a constant                                                      *)
(*   view   the value of another entity                                     *)
(*   scale  c times the value of another entity                             *)
(*   sumoff c times the value of another entity plus that of an array       *)
(*   fix    another entity with some positions fixed to labels              *)
(*   comb   several entities of one shape combined by the operator          *)
(* The state is ent, the weights w and the tables of the arrays in ent.     *)
EXTENDS OGBase
VARIABLES ent, w
vars == <<ent, w>>

\* positions of entity e that are not fixed, in order
Free(n, pos) == SelectSeq([i \in 1 .. n |-> i - 1], LAMBDA p : p \notin SeqSet(pos))
IndexIn(s, a) == CHOOSE i \in 1 .. Len(s) : s[i] = a

RECURSIVE ShapeE(_)
ShapeE(i) ==
  LET e == ent[i] IN
  CASE e.k \in {"tab", "arr", "learn", "const"} -> e.s
    [] e.k \in {"view", "scale", "sumoff", "comb"} -> ShapeE(e.of[1])
    [] e.k = "fix" -> LET s == ShapeE(e.of[1]) IN [j \in 1 .. (Len(s) - Len(e.pos)) |-> s[Free(Len(s), e.pos)[j] + 1]]

\* the complete table of an entity, built from the tables of those it refers to
RECURSIVE TableE(_, _)
TableE(op, i) ==
  LET e == ent[i] IN
  CASE e.k \in {"tab", "arr"} -> e.t
    [] e.k = "learn"  -> [r \in 1 .. Size(e.s) |-> SumSeq([j \in 1 .. Len(e.ws) |-> w[e.ws[j] + 1] * e.fs[j][r]])]
    [] e.k = "const"  -> [r \in 1 .. Size(e.s) |-> e.c]
    [] e.k = "view"   -> TableE(op, e.of[1])
    [] e.k = "scale"  -> LET t == TableE(op, e.of[1]) IN [r \in 1 .. Len(t) |-> e.c * t[r]]
    [] e.k = "sumoff" -> LET t == TableE(op, e.of[1]) o == TableE(op, e.of[2]) IN [r \in 1 .. Len(t) |-> e.c * t[r] + o[r]]
    [] e.k = "comb"   -> LET ts == [j \in 1 .. Len(e.of) |-> TableE(op, e.of[j])] IN [r \in 1 .. Len(ts[1]) |-> Combine(op, [j \in 1 .. Len(e.of) |-> ts[j][r]])]
    [] e.k = "fix"    -> LET t == TableE(op, e.of[1]) full == ShapeE(e.of[1]) st == Strides(full) fr == Free(Len(full), e.pos) s == ShapeE(i)
                             base == SumSeq([q \in 1 .. Len(e.pos) |-> e.lab[q] * st[e.pos[q] + 1]])
                         IN [r \in 1 .. Size(s) |-> LET x == Unrank(s, r - 1) IN t[1 + base + SumSeq([q \in 1 .. Len(fr) |-> x[q] * st[fr[q] + 1]])]]
ValE(op, i, x) == TableE(op, i)[Rank(ShapeE(i), x) + 1]

\* transitions
Define(e) == ent' = Append(ent, e) /\ UNCHANGED w
SetWeight(k, v) == w' = [w EXCEPT ![k + 1] = v] /\ UNCHANGED ent
SetArray(i, r, v) == ent' = [ent EXCEPT ![i].t[r + 1] = v] /\ UNCHANGED w
=============================================================================
