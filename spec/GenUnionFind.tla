---------------------------- MODULE GenUnionFind ----------------------------
EXTENDS Integers, Sequences, TLC
CONSTANTS LEN
VARIABLES h, n
GInit == \E k \in 0 .. 9 : n = k /\ h = << <<1, k>> >>
Op(t) == h' = Append(h, t)
GNext ==
  \/ /\ Len(h) < LEN
     /\ \/ \E a, b \in 0 .. (n - 1) : Op(<<2, a, b>>) /\ UNCHANGED n
        \/ \E a \in 0 .. (n - 1) : Op(<<3, a>>) /\ UNCHANGED n
        \/ \E k \in 0 .. 3 : n + k <= 14 /\ Op(<<4, k>>) /\ n' = n + k
        \/ \E k \in 0 .. 9 : Op(<<5, k>>) /\ n' = k
  \/ Len(h) = LEN /\ PrintT("@@" \o ToString(h) \o "@@") /\ h' = Append(h, <<0>>) /\ UNCHANGED n
  \/ Len(h) = LEN + 1 /\ UNCHANGED <<h, n>>
=============================================================================
