------------------------------- MODULE MCSearch -------------------------------
(***************************************************************************)
(* Selection, ranks, group queries and folds, computed by descending the   *)
(* tree with what is stored about each child, against the contract.        *)
(* The stored augmentation is the sequence of entries (see BPTree); Count, *)
(* GroupCount, sums and maxima are functions of it.                        *)
(***************************************************************************)
EXTENDS MCTree, GroupAug

CONSTANT GroupOfKey(_)   \* ascending
G3(k) == (k + 2) \div 3
G15(k) == (k + 14) \div 15
G2(k) == (k + 1) \div 2

Groups(x) == [i \in 1..Len(x) |-> GroupOfKey(x[i][1])]
KeyGroups(ks) == [i \in 1..Len(ks) |-> GroupOfKey(ks[i])]
RECURSIVE LeafGroups(_)     \* what from_leaf and from_inner compute, bottom up, and the stored one must equal
LeafGroups(x) == IF IsLeaf(x) THEN GroupFromLeaf(KeyGroups(x.ks)) ELSE GroupFromInner([i \in 1..Len(x.ch) |-> LeafGroups(x.ch[i])])
StoredGroups(x) == [i \in 1..Len(x.ag) |-> GroupFromLeaf(Groups(x.ag[i]))]

\* Count
RECURSIVE CountIn(_, _, _)
CountIn(ag, i, q) == IF i > Len(ag) THEN <<>> ELSE IF q < Len(ag[i]) THEN <<i, q>> ELSE CountIn(ag, i + 1, q - Len(ag[i]))
RECURSIVE AtAlg(_, _)
AtAlg(x, q) == IF IsLeaf(x) THEN (IF q < Len(x.ks) THEN x.ks[q + 1] ELSE 0)
               ELSE With(CountIn(x.ag, 1, q), LAMBDA r : IF r = <<>> THEN 0 ELSE AtAlg(x.ch[r[1]], r[2]))
RECURSIVE RankAlg(_, _, _)
RankAlg(x, k, acc) == IF IsLeaf(x) THEN acc + LocateSlot(x, k) - 1
                      ELSE With(LocateChild(x, k), LAMBDA c : RankAlg(x.ch[c], k, FoldLeft(LAMBDA a, b : a + Len(b), acc, SubSeq(x.ag, 1, c - 1))))

\* GroupCount
RECURSIVE GroupAtAlg(_, _, _)
GroupAtAlg(x, g, o) ==
  IF IsLeaf(x) THEN With(GroupInLeaf(KeyGroups(x.ks), g, o), LAMBDA s : IF s = <<>> THEN 0 ELSE x.ks[s[1]])
  ELSE With(GroupInInner(StoredGroups(x), 1, g, o), LAMBDA r : IF r = <<>> THEN 0 ELSE GroupAtAlg(x.ch[r[1]], g, r[2]))
RECURSIVE GroupRankAlg(_, _, _)
GroupRankAlg(x, k, rank) ==
  IF IsLeaf(x) THEN GroupFoldLeaf(rank, GroupOfKey(k), LocateSlot(x, k) - 1, KeyGroups(x.ks))
  ELSE With(LocateChild(x, k), LAMBDA c : GroupRankAlg(x.ch[c], k, GroupFoldInner(rank, SubSeq(StoredGroups(x), 1, c - 1))))
RECURSIVE GroupSizeAlg(_, _, _)
GroupSizeAlg(x, g, acc) ==
  IF IsLeaf(x) THEN acc + Len(SelectSeq(KeyGroups(x.ks), LAMBDA y : y = g))
  ELSE With(GroupVisit(StoredGroups(x), 1, g, 0, 0), LAMBDA r : GroupSizeAlg(x.ch[r[1]], g, acc + r[2]))

\* a sum of weights, and the first value that is large enough
W(e) == ((e[1] * 7) % 5) + 1
Total(F(_), s) == FoldLeft(LAMBDA a, e : a + F(e), 0, s)
RECURSIVE SumIn(_, _, _, _)
SumIn(F(_), runs, i, q) == IF i > Len(runs) THEN <<>>
                           ELSE With(Total(F, runs[i]), LAMBDA t : IF q < t THEN <<i, q>> ELSE SumIn(F, runs, i + 1, q - t))
RECURSIVE FindAlg(_, _, _)
FindAlg(F(_), x, q) ==
  IF IsLeaf(x) THEN With(SumIn(F, [i \in 1..Len(x.ks) |-> <<<<x.ks[i], x.vs[i]>>>>], 1, q), LAMBDA r : IF r = <<>> THEN 0 ELSE x.ks[r[1]])
  ELSE With(SumIn(F, x.ag, 1, q), LAMBDA r : IF r = <<>> THEN 0 ELSE FindAlg(F, x.ch[r[1]], r[2]))
MaxOf(s) == FoldLeft(LAMBDA a, e : IF e[2] > a THEN e[2] ELSE a, 0, s)
RECURSIVE AboveAlg(_, _)
AboveAlg(x, q) ==
  IF IsLeaf(x) THEN With(SelectSeq([i \in 1..Len(x.ks) |-> i], LAMBDA i : x.vs[i] >= q), LAMBDA s : IF s = <<>> THEN 0 ELSE x.ks[s[1]])
  ELSE With(SelectSeq([i \in 1..Len(x.ag) |-> i], LAMBDA i : MaxOf(x.ag[i]) >= q), LAMBDA s : IF s = <<>> THEN 0 ELSE AboveAlg(x.ch[s[1]], q))
\* a fold that remembers the order: the sequence itself
RECURSIVE FoldAlg(_, _, _)
FoldAlg(x, k, acc) == IF IsLeaf(x) THEN acc \o EntriesOf(SubSeq(x.ks, 1, LocateSlot(x, k) - 1), SubSeq(x.vs, 1, LocateSlot(x, k) - 1))
                      ELSE With(LocateChild(x, k), LAMBDA c : FoldAlg(x.ch[c], k, FoldLeft(LAMBDA a, b : a \o b, acc, SubSeq(x.ag, 1, c - 1))))

-----------------------------------------------------------------------------
\* the contract with the groups and the weights of this module
C(a) == [u |-> U, grp |-> [k \in 1..U |-> GroupOfKey(k)], aug |-> a]
API2 == INSTANCE SweepAPI WITH
         Handles <- {1}, CursorIds <- {}, IterIds <- {}, env <- C("count"),
         colls <- <<>>, curs <- <<>>, iters <- <<>>, res <- <<>>, drops <- {}
APIk == INSTANCE SweepAPI WITH
         Handles <- {1}, CursorIds <- {}, IterIds <- {}, env <- C("ksum"),
         colls <- <<>>, curs <- <<>>, iters <- <<>>, res <- <<>>, drops <- {}
APIv == INSTANCE SweepAPI WITH
         Handles <- {1}, CursorIds <- {}, IterIds <- {}, env <- C("vsum"),
         colls <- <<>>, curs <- <<>>, iters <- <<>>, res <- <<>>, drops <- {}
APIg == INSTANCE SweepAPI WITH
         Handles <- {1}, CursorIds <- {}, IterIds <- {}, env <- C("group"),
         colls <- <<>>, curs <- <<>>, iters <- <<>>, res <- <<>>, drops <- {}

\* C06
IndexOK == \E m \in {Contents(root)} :
  /\ \A i \in 0..cnt : AtAlg(root, i) = API2!Nth(m, i)
  /\ \A k \in 1..U : RankAlg(root, k, 0) = API2!Below(m, k)
\* C07
GroupOK == \E m \in {Contents(root)} :
  /\ \A g \in 1..GroupOfKey(U) : GroupSizeAlg(root, g, 0) = Len(APIg!InGroup(m, g))
  /\ \A g \in 1..GroupOfKey(U), o \in 0..4 : GroupAtAlg(root, g, o) = APIg!NthIn(m, g, o)
  /\ \A k \in 1..U : GroupRankAlg(root, k, <<>>) = <<GroupOfKey(k), Len(SelectSeq(APIg!InGroup(m, GroupOfKey(k)), LAMBDA j : j < k))>>
  /\ LeafGroups(root) = GroupFromLeaf(Groups(raug))
  /\ With(LeafGroups(root), LAMBDA a : APIg!RootAug(m) = IF a = Zero THEN <<0>> ELSE <<a.n, a.hi, a.hc>>)
\* C18
FindOK == \E m \in {Contents(root)} :
  /\ \A q \in 0..(Total(W, raug) + 1) : FindAlg(W, root, q) = APIk!WeightAt(m, q)
  /\ ValueAugs => /\ \A q \in 0..(Total(LAMBDA e : e[2], raug) + 1) : FindAlg(LAMBDA e : e[2], root, q) = APIv!WeightAt(m, q)
                  /\ \A q \in 0..(MaxOf(raug) + 1) : AboveAlg(root, q) = API2!AboveAt(m, q)
  /\ \A k \in 1..U : /\ FoldAlg(root, k, <<>>) = SelectSeq(raug, LAMBDA e : e[1] < k)
                     /\ Total(W, FoldAlg(root, k, <<>>)) = APIk!PrefixRank(m, k)
=============================================================================
