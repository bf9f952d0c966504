-------------------------------- MODULE MCStep --------------------------------
(***************************************************************************)
(* One step from every tree of a family of well formed trees with three    *)
(* levels: root, inner nodes of the sizes in InnerSizes (number of         *)
(* children), leaves of the sizes in LeafSizes.  All leaves have the same  *)
(* size but for at most Odd of them, at any place.  Separators are the     *)
(* first key on their right, or a key that is gone (Gap).                  *)
(* With the invariants checked before and after, this is the inductive     *)
(* step of "the algorithm keeps trees well formed" over that family, which *)
(* is out of reach of exploration from the empty tree.                     *)
(***************************************************************************)
EXTENDS MCSearch

CONSTANTS RootSizes, InnerSizes, OddInner, LeafSizes, Odd
VARIABLE step

\* sequences of length n over S in which at most d elements differ from the most common choice
Mostly(n, S, d) == {[i \in 1..n |-> IF i \in D THEN y ELSE x] : x, y \in S, D \in {E \in SUBSET (1..n) : Cardinality(E) <= d}}

Sum(s, m) == FoldLeft(LAMBDA a, i : a + s[i], 0, [i \in 1..m |-> i])

\* leaf j of sizes ls: its keys are every other number
MkLeaf(ls, j, v) == LET b == Sum(ls, j - 1) IN
  Leaf(j, [i \in 1..ls[j] |-> 2 * (b + i)], [i \in 1..ls[j] |-> v], j - 1, IF j = Len(ls) THEN 0 ELSE j + 1)
MkInner(ch, gap) == Inner([i \in 1..(Len(ch) - 1) |-> FirstKey(ch[i + 1]) - gap], ch, [i \in 1..Len(ch) |-> AugFor(ch[i])])

Build(is, ls, gap) ==
  With([j \in 1..Len(ls) |-> MkLeaf(ls, j, AVal)], LAMBDA leaves :
    MkInner([i \in 1..Len(is) |-> MkInner(SubSeq(leaves, Sum(is, i - 1) + 1, Sum(is, i)), gap)], gap))

StepInit ==
  \E n \in RootSizes : \E is \in Mostly(n, InnerSizes, OddInner) :
  \E ls \in Mostly(Sum(is, n), LeafSizes, Odd) : \E gap \in {0, 1} :
  \E r \in {Build(is, ls, gap)} :
    /\ 2 * Sum(ls, Len(ls)) < U
    /\ root = r /\ raug = AugFor(r) /\ cnt = Sum(ls, Len(ls)) /\ nid = Len(ls) + 1
    /\ hint = 0 /\ lin = "ins" /\ cur = [c \in Cursors |-> NoCur]
    /\ op = <<"start">> /\ res = <<>> /\ gone = {} /\ lab = <<"start">>
    /\ step = 0

\* bulk built from each of the sizes
BulkInit == Init /\ step = 0

OneStep == /\ step = 0 /\ step' = 1
           /\ \E k \in 1..(2 * cnt + 1) : k <= U /\ (Delete(k) \/ \E v \in Vals : Insert(k, v))
NoStep == step = 0 /\ step' = 1 /\ UNCHANGED vars
StepOKs == [][step = 1 \/ op' = <<"start">> \/ StepOK]_<<vars, step>>
StepView == <<StructView, step>>
\* how many different things the steps did
Labels == TLCSet(3, TRUE)
=============================================================================
