------------------------------- MODULE WildAPI -------------------------------
(***************************************************************************)
(* The contract when the ordering of the keys breaks its promises: answers *)
(* may contradict each other from one comparison to the next.              *)
(*                                                                         *)
(* A collection is then nothing but a sequence of entries <<key, value>>.  *)
(* Which entry a call finds, and where a new one goes, is arbitrary; but   *)
(* an insertion adds one entry or replaces the value of one, a removal     *)
(* takes out the one it hands back, everything else stays where it is, and *)
(* counts, iterators, positions and visitors agree on the sequence.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Put(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Inserted(s, t, k, v, r) ==
  \/ r = <<>> /\ \E i \in 1..(Len(s) + 1) : t = Put(s, i, <<k, v>>)
  \/ \E i \in 1..Len(s) : r = <<s[i][2]>> /\ t = [s EXCEPT ![i][2] = v]

Removed(s, t, r) ==
  \/ r = <<>> /\ t = s
  \/ \E i \in 1..Len(s) : r = <<s[i][2]>> /\ t = Cut(s, i)

Found(s, r) == r = <<>> \/ \E i \in 1..Len(s) : r = <<s[i][2]>>
=============================================================================
