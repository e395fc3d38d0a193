--------------------------- MODULE GenContainers ----------------------------
(* Histories of sequence operations on three objects for the driver.        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS LEN
VARIABLES h, n
Objs == 1 .. 3
GInit == h = <<>> /\ n = [o \in Objs |-> 0]
Op(t) == h' = Append(h, t)
GNext ==
  \/ /\ Len(h) < LEN
     /\ \E o \in Objs :
          \/ Op(<<1, o>>) /\ n' = [n EXCEPT ![o] = 0]
          \/ \E m \in 0 .. 6 : (Op(<<2, o, m>>) \/ Op(<<3, o, m, 7>>) \/ Op(<<8, o, m>>) \/ Op(<<11, o, m>>)) /\ n' = [n EXCEPT ![o] = m]
          \/ \E p \in Objs : (Op(<<4, o, p>>) \/ Op(<<5, o, p>>)) /\ n' = [n EXCEPT ![o] = n[p]]
          \/ n[o] < 9 /\ Op(<<6, o, Len(h)>>) /\ n' = [n EXCEPT ![o] = @ + 1]
          \/ n[o] \in 1 .. 8 /\ Op(<<7, o, 0>>) /\ n' = [n EXCEPT ![o] = @ + 1]
          \/ \E m \in 0 .. 8 : Op(<<9, o, m>>) /\ UNCHANGED n
          \/ Op(<<10, o>>) /\ n' = [n EXCEPT ![o] = 0]
          \/ n[o] > 0 /\ \E i \in 0 .. (n[o] - 1) : Op(<<12, o, i, 5>>) /\ UNCHANGED n
  \/ Len(h) = LEN /\ PrintT("@@" \o ToString(h) \o "@@") /\ h' = Append(h, <<0>>) /\ UNCHANGED n
  \/ Len(h) = LEN + 1 /\ UNCHANGED <<h, n>>
=============================================================================
