---------------------------- MODULE MCLabelSpace ----------------------------
EXTENDS LabelSpace
Lists == UNION { [1 .. m -> 1 .. 2] : m \in 0 .. 3 }
MCInit == cls = "none" /\ k = 0 /\ sp = <<>> /\ dims = <<>>
Bounded == Len(sp) < 4
MCNext ==
  \/ cls = "none" /\ \E s \in Lists, c \in {"disc", "vview", "view"} : MakeList(c, s)
  \/ cls = "none" /\ \E m \in 0 .. 3, l \in 1 .. 2, c \in {"simple", "static"} : MakeUniform(c, m, l)
  \/ cls = "none" /\ \E x, y \in 0 .. 2, l \in 1 .. 2 : MakeGrid(x, y, l)
  \/ cls # "none" /\ \E s \in Lists, r \in BOOLEAN : AssignDense(s, r)
  \/ cls # "none" /\ Bounded /\ \E l \in 1 .. 2, r \in BOOLEAN : AddVariable(l, r, Len(sp))
  \/ \E s \in Lists : Viewed(s)
\* a class never holds a list it cannot represent; refusals change nothing
Representable == cls \in {"simple", "static", "grid"} => \A i \in 1 .. Len(sp) : sp[i] = k
GridLen == cls = "grid" => Len(sp) = dims[1] * dims[2]
StaticCount == [][cls = "static" => k' = k]_svars
AppendOnly == [][(Len(sp') = Len(sp) + 1 /\ cls \in {"grid"}) => FALSE]_svars
=============================================================================
