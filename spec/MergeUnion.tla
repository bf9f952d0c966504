------------------------------ MODULE MergeUnion ------------------------------
(***************************************************************************)
(* The union of two sets: two ascending iterators, at most one item of     *)
(* which is held back.  Against: the ascending union of both.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT U
VARIABLES a, b,      \* what the two iterators have left
          peek,      \* <<>>, <<"a", x>> or <<"b", x>>
          want,      \* the contract: what is still to come
          got        \* 0: None
vars == <<a, b, peek, want, got>>
Asc(S) == SelectSeq([i \in 1..U |-> i], LAMBDA k : k \in S)
Init == /\ \E x, y \in SUBSET (1..U) : a = Asc(x) /\ b = Asc(y) /\ want = Asc(x \cup y)
        /\ peek = <<>> /\ got = 0
First(s) == IF s = <<>> THEN 0 ELSE s[1]
Rest(s) == IF s = <<>> THEN s ELSE Tail(s)
Next ==
  LET pa == peek # <<>> /\ peek[1] = "a"
      pb == peek # <<>> /\ peek[1] = "b"
      x == IF pa THEN peek[2] ELSE First(a)
      y == IF pb THEN peek[2] ELSE First(b)
  IN /\ a' = IF pa THEN a ELSE Rest(a)
     /\ b' = IF pb THEN b ELSE Rest(b)
     /\ peek' = IF x # 0 /\ y # 0 /\ x < y THEN <<"b", y>> ELSE IF x # 0 /\ y # 0 /\ x > y THEN <<"a", x>> ELSE <<>>
     /\ got' = IF x # 0 /\ (y = 0 \/ x <= y) THEN x ELSE y
     /\ want' = Rest(want)
Spec == Init /\ [][Next]_vars
Yields == [][got' = First(want)]_vars
LenA == Len(a) + (IF peek # <<>> /\ peek[1] = "a" THEN 1 ELSE 0)
LenB == Len(b) + (IF peek # <<>> /\ peek[1] = "b" THEN 1 ELSE 0)
Bigger(x, y) == IF x > y THEN x ELSE y
Hint == Bigger(LenA, LenB) <= Len(want) /\ Len(want) <= LenA + LenB
=============================================================================
