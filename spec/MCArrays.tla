------------------------------ MODULE MCArrays ------------------------------
(* Every view reachable from an array by the geometry operations: it stays   *)
(* inside the block, never addresses a cell twice, and each operation moves  *)
(* elements exactly as it promises.                                          *)
EXTENDS Arrays
CONSTANTS MaxDim, MaxLen, MaxCells, Depth
VARIABLES v, shp, n, prev, step
Shapes == UNION { [1 .. d -> 1 .. MaxLen] : d \in 0 .. MaxDim }
Cells0 == Size(shp)
Init == /\ shp \in { s \in Shapes : Size(s) <= MaxCells }
        /\ v \in { Whole(1, shp, o) : o \in {0, 1} }
        /\ n = 0 /\ prev = v /\ step = <<"new">>
Perms(k) == { p \in [1 .. k -> 0 .. k - 1] : \A i, j \in 1 .. k : i # j => p[i] # p[j] }
Bases(s) == { b \in [1 .. Len(s) -> 0 .. MaxLen - 1] : \A i \in 1 .. Len(s) : b[i] < s[i] }
To(w, s) == v' = w /\ prev' = v /\ step' = s /\ n' = n + 1 /\ UNCHANGED shp
Next == /\ n < Depth
        /\ \/ \E p \in Perms(Len(v.sh)) : To(Perm(v, p), <<"perm", p>>)
           \/ \E b \in Bases(v.sh) : \E s \in Bases(v.sh) : \E o \in {0, 1} : (\A i \in 1 .. Len(b) : b[i] + s[i] + 1 <= v.sh[i]) /\ To(SubView(v, b, [i \in 1 .. Len(b) |-> s[i] + 1], o), <<"sub", b>>)
           \/ \E d \in Range0(Len(v.sh)) : \E x \in Range0(v.sh[d + 1]) : To(Bound(v, d, x), <<"bound", d, x>>)
           \/ \E k \in -2 .. 2 : Len(v.sh) > 0 /\ To(Perm(v, Shift(Len(v.sh), k)), <<"shift", k>>)
           \/ To(Squeeze(v), <<"squeeze">>)
           \/ Simple(v) /\ \E s \in { t \in Shapes : Size(t) = Size(v.sh) } : To(Reshape(v, s), <<"reshape">>)
Mem == <<[i \in 1 .. Cells0 |-> i]>>
Inside == \A k \in Range0(Size(v.sh)) : CellAt(v, k) \in 1 .. Cells0
Injective == \A j, k \in Range0(Size(v.sh)) : j # k => CellAt(v, j) # CellAt(v, k)
IndexRoundTrip == \A k \in Range0(Size(v.sh)) : ToIndex(v, ToCoord(v.sh, v.o, k)) = k
Moves == CASE step[1] = "perm" -> \A k \in Range0(Size(v.sh)) : LET c == ToCoord(v.sh, v.o, k) b == [i \in 1 .. Len(c) |-> c[CHOOSE j \in 1 .. Len(c) : step[2][j] = i - 1]] IN At(Mem, v, c) = At(Mem, prev, b)
           [] step[1] = "sub" -> \A k \in Range0(Size(v.sh)) : LET c == ToCoord(v.sh, v.o, k) IN At(Mem, v, c) = At(Mem, prev, [i \in 1 .. Len(c) |-> c[i] + step[2][i]])
           [] step[1] = "reshape" -> Content(Mem, v) = Content(Mem, prev)
           [] step[1] = "squeeze" -> Content(Mem, v) = Content(Mem, prev)
           [] step[1] = "bound" -> \A k \in Range0(Size(prev.sh)) : LET c == ToCoord(prev.sh, 1, k) IN c[step[2] + 1] = step[3] => At(Mem, prev, c) = At(Mem, v, SelectSeq(c, LAMBDA x : FALSE) \o SubSeq(c, 1, step[2]) \o SubSeq(c, step[2] + 2, Len(c)))
           [] OTHER -> { CellAt(v, k) : k \in Range0(Size(v.sh)) } = { CellAt(prev, k) : k \in Range0(Size(prev.sh)) }
WriteRead == LET w == Write(Mem, v, [k \in 1 .. Size(v.sh) |-> 100 + k]) IN Content(w, v) = [k \in 1 .. Size(v.sh) |-> 100 + k] /\ \A i \in 1 .. Cells0 : (\A k \in Range0(Size(v.sh)) : CellAt(v, k) # i) => w[1][i] = i
Spec == Init /\ [][Next]_<<v, shp, n, prev, step>>
=============================================================================
