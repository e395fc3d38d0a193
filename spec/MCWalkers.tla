----------------------------- MODULE MCWalkers ------------------------------
(* The carry algorithm visits Nth(0), Nth(1), ... and nothing else.         *)
EXTENDS Walkers
CONSTANTS SHAPES
VARIABLES r
ShapesDef == { <<3>>, <<2, 3>>, <<1, 2>>, <<3, 1, 2>>, <<2, 3, 2>>, <<2, 2, 1, 3>> }
vars == <<w, it, sq, r>>
Fixings(s) == { f \in UNION { [1 .. k -> (0 .. (Len(s) - 1)) \X (0 .. 2)] : k \in 0 .. 2 } :
  /\ \A i \in 1 .. Len(f) : f[i][2] < s[f[i][1] + 1]
  /\ \A i, j \in 1 .. Len(f) : i # j => f[i][1] # f[j][1] }
MInit == /\ it = <<>> /\ sq = <<>> /\ r = 0
         /\ \E s \in SHAPES, o \in {"first", "last"} : \E f \in Fixings(s) : w = [s |-> s, o |-> o, f |-> f, c |-> Start(s, f, o)]
RECURSIVE Carry(_, _, _)
Carry(s, c, ord) ==
  IF ord = <<>> THEN c
  ELSE LET d == Head(ord) + 1 IN IF c[d] + 1 < s[d] THEN [c EXCEPT ![d] = @ + 1] ELSE Carry(s, [c EXCEPT ![d] = 0], Tail(ord))
MNext == /\ r + 1 < WalkSize(w.s, w.f) /\ r' = r + 1
         /\ w' = [w EXCEPT !.c = Carry(w.s, @, Order(w.s, w.f, w.o))] /\ UNCHANGED <<it, sq>>
Agree == w.c = Nth(w.s, w.f, w.o, r)
Legal == InShape(w.s, w.c) /\ \A i \in 1 .. Len(w.f) : w.c[w.f[i][1] + 1] = w.f[i][2]
Distinct == \A q \in 0 .. (r - 1) : Nth(w.s, w.f, w.o, q) # w.c
=============================================================================
