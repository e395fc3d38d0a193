-------------------------- MODULE GenPriorityQueue --------------------------
EXTENDS Integers, Sequences, TLC
CONSTANTS LEN, N
VARIABLES h, q
GInit == h = <<>> /\ q = {}
Op(t) == h' = Append(h, t)
GNext ==
  \/ /\ Len(h) < LEN
     /\ \/ \E i \in 0 .. (N - 1), p \in 0 .. 5 : Op(<<1, i, p>>) /\ q' = q \cup {i}
        \/ Len(h) % 7 = 6 /\ Op(<<2>>) /\ q' = {}
        \/ Op(<<5>>) /\ UNCHANGED q     \* pop: which of equal items goes is not determined
        \/ \E i \in q : Op(<<3, i>>) /\ q' = q \ {i}
        \/ \E i \in q, p \in 0 .. 5 : Op(<<4, i, p>>) /\ UNCHANGED q
        \/ \E i \in q : Op(<<3, i>>) /\ q' = q \ {i}
  \/ Len(h) = LEN /\ PrintT("@@" \o ToString(h) \o "@@") /\ h' = Append(h, <<0>>) /\ UNCHANGED q
  \/ Len(h) = LEN + 1 /\ UNCHANGED <<h, q>>
=============================================================================
