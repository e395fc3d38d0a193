---------------------------- MODULE GenPersistence ---------------------------
(* Histories over three model handles and two file paths:                   *)
(*  <<1, h>> new model   <<2, h>> grow   <<3, h, p, d>> save                 *)
(*  <<4, h, p, d>> load  <<5, h>> change a stored function  <<6, h>> finalize*)
(*  <<7, h, g>> copy (or a round trip between the handles)                   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS LEN
VARIABLES h, live, file
H == 0 .. 2
GInit == live = {} /\ file = [p \in {} |-> 0] /\ h = <<>>
Op(t) == h' = Append(h, t)
GNext ==
  \/ /\ Len(h) < LEN
     /\ \/ \E a \in H : (Len(h) = 0 \/ a \notin live) /\ Op(<<1, a>>) /\ live' = live \cup {a} /\ UNCHANGED file
        \/ \E a \in live : Op(<<2, a>>) /\ UNCHANGED <<live, file>>
        \/ \E a \in live : \E p, d \in 0 .. 1 : Op(<<3, a, p, d>>) /\ file' = [q \in DOMAIN file \cup {p} |-> IF q = p THEN d ELSE file[q]] /\ UNCHANGED live
        \/ \E a \in live : \E p \in DOMAIN file : Op(<<4, a, p, file[p]>>) /\ UNCHANGED <<live, file>>
        \/ \E a \in live : \E p \in 0 .. 2, d \in 0 .. 1 : Op(<<4, a, p, d>>) /\ UNCHANGED <<live, file>>
        \/ \E a \in live : Op(<<5, a>>) /\ UNCHANGED <<live, file>>
        \/ \E a \in live : Op(<<6, a>>) /\ UNCHANGED <<live, file>>
        \/ \E a, b \in live : Op(<<7, a, b>>) /\ UNCHANGED <<live, file>>
  \/ Len(h) = LEN /\ PrintT("@@" \o ToString(h) \o "@@") /\ h' = Append(h, <<0>>) /\ UNCHANGED <<live, file>>
  \/ Len(h) = LEN + 1 /\ UNCHANGED <<h, live, file>>
=============================================================================
