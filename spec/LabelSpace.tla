----------------------------- MODULE LabelSpace -----------------------------
(* A label space is the list of its label counts.  What distinguishes the   *)
(* classes is only which lists they can represent:                          *)
(*   disc    any list            (appending allowed)                        *)
(*   simple  uniform lists       (appending the uniform count)              *)
(*   static  uniform lists of a fixed count                                 *)
(*   grid    uniform lists of length dimX*dimY, no appending                *)
(*   vview   a view on the caller's vector, no appending                    *)
(*   view    a view on a model's space, no appending                        *)
EXTENDS OGBase
VARIABLES cls, k, sp, dims     \* k: uniform count (simple/static/grid), dims: grid extents
svars == <<cls, k, sp, dims>>
Rep(c, n) == [i \in 1 .. n |-> c]
Uniform(s) == \A i \in 1 .. Len(s) : s[i] = s[1]

MakeList(c, s) == cls' = c /\ sp' = s /\ k' = 0 /\ dims' = <<>> /\ c \in {"disc", "vview", "view"}
MakeUniform(c, n, l) == cls' = c /\ sp' = Rep(l, n) /\ k' = l /\ dims' = <<>> /\ c \in {"simple", "static"}
MakeGrid(x, y, l) == cls' = "grid" /\ sp' = Rep(l, x * y) /\ k' = l /\ dims' = <<x, y>>
\* assignDense: adopt the list, or refuse it and keep everything
DenseOK(s) ==
  CASE cls = "disc" -> TRUE [] cls = "simple" -> Uniform(s)
    [] cls = "static" -> \A i \in 1 .. Len(s) : s[i] = k [] OTHER -> FALSE
AssignDense(s, refused) ==
  IF DenseOK(s) THEN ~refused /\ sp' = s /\ k' = (IF cls = "simple" /\ s # <<>> THEN s[1] ELSE k) /\ UNCHANGED <<cls, dims>>
  ELSE refused /\ UNCHANGED svars
CanAdd(l) == cls = "disc" \/ (cls \in {"simple", "static"} /\ l = k)
AddVariable(l, refused, ret) ==
  IF CanAdd(l) THEN ~refused /\ ret = Len(sp) /\ sp' = Append(sp, l) /\ UNCHANGED <<cls, k, dims>>
  ELSE refused /\ UNCHANGED svars
\* the viewed vector / model changes under a view
Viewed(s) == cls \in {"vview", "view"} /\ sp' = s /\ UNCHANGED <<cls, k, dims>>
\* what can be observed
ObsOK(nv, ls, simple) == nv = Len(sp) /\ ls = sp /\ simple = Uniform(sp)
=============================================================================
