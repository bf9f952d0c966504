-------------------------------- MODULE BPTree --------------------------------
(***************************************************************************)
(* The algorithm of sweep-bptree: nodes of capacity N, leaves linked in    *)
(* both directions, separators, one stored augmentation per child, and the *)
(* leaf that the last operation remembers as a hint for the next one.      *)
(*                                                                         *)
(* A node is a record                                                      *)
(*    id   of a leaf (> 0, never reused); 0 for inner nodes                *)
(*    ks   keys of a leaf, separators of an inner node                     *)
(*    vs   values of a leaf                                                *)
(*    pv, nx  ids of the neighbouring leaves, 0 at the ends                *)
(*    ch   children of an inner node                                       *)
(*    ag   what is stored about each child.  The most general augmentation *)
(*         is modelled: the sequence of entries it was computed from.  Any *)
(*         other augmentation is a function of it.                         *)
(*                                                                         *)
(* Every operator describes what the code does; that this implements the   *)
(* contract SweepAPI is what the invariants and action properties say.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS N,          \* capacity of inner nodes (keys) and leaves (entries)
          ValueAugs   \* TRUE: augmentations depend on values too (then get_mut is not used)

H == N \div 2
MinN == N \div 4

With(x, F(_)) == FoldLeft(LAMBDA a, y : F(y), 0, <<x>>)

Leaf(id, ks, vs, pv, nx) == [id |-> id, ks |-> ks, vs |-> vs, pv |-> pv, nx |-> nx, ch |-> <<>>, ag |-> <<>>]
Inner(ks, ch, ag) == [id |-> 0, ks |-> ks, vs |-> <<>>, pv |-> 0, nx |-> 0, ch |-> ch, ag |-> ag]
IsLeaf(x) == x.id > 0

\* Augmentation::from_leaf and from_inner
EntriesOf(ks, vs) == [i \in 1..Len(ks) |-> IF ValueAugs THEN <<ks[i], vs[i]>> ELSE <<ks[i]>>]
AugFor(x) == IF IsLeaf(x) THEN EntriesOf(x.ks, x.vs) ELSE FoldLeft(LAMBDA a, b : a \o b, <<>>, x.ag)

InsAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
DelAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* child to descend into: a key equal to a separator belongs to its right
LocateChild(x, k) == 1 + Cardinality({i \in 1..Len(x.ks) : x.ks[i] <= k})
\* slot in a leaf: position of the first key >= k
LocateSlot(x, k) == 1 + Cardinality({i \in 1..Len(x.ks) : x.ks[i] < k})
HasSlot(x, k) == \E i \in 1..Len(x.ks) : x.ks[i] = k

RECURSIVE LeavesOf(_)
LeavesOf(x) == IF IsLeaf(x) THEN <<x>> ELSE FoldLeft(LAMBDA a, c : a \o LeavesOf(c), <<>>, x.ch)
RECURSIVE SetPrev(_, _, _)
SetPrev(x, id, p) == IF id = 0 THEN x
                     ELSE IF IsLeaf(x) THEN (IF x.id = id THEN [x EXCEPT !.pv = p] ELSE x)
                     ELSE [x EXCEPT !.ch = [i \in 1..Len(x.ch) |-> SetPrev(x.ch[i], id, p)]]
RECURSIVE SetValue(_, _, _, _)
SetValue(x, id, i, v) == IF IsLeaf(x) THEN (IF x.id = id THEN [x EXCEPT !.vs[i] = v] ELSE x)
                         ELSE [x EXCEPT !.ch = [j \in 1..Len(x.ch) |-> SetValue(x.ch[j], id, i, v)]]
RECURSIVE DescendTo(_, _)
DescendTo(x, k) == IF IsLeaf(x) THEN x ELSE DescendTo(x.ch[LocateChild(x, k)], k)
RECURSIVE DepthOf(_)
DepthOf(x) == IF IsLeaf(x) THEN 0 ELSE 1 + DepthOf(x.ch[1])

Where(c, n) == IF c = 1 THEN "first" ELSE IF c = n THEN "last" ELSE "mid"

-----------------------------------------------------------------------------
(* Insertion.  The result carries                                          *)
(*   st   "upd", "ins" or "split"                                          *)
(*   x    the node afterwards; y and key: its new right sibling            *)
(*   hint leaf to remember, 0 for no change                                *)
(*   fix  <<leaf, prev>>: a leaf outside whose prev link changes           *)
(*   lab  what happened, for coverage                                      *)

InsLeaf(x, k, v, id) ==
  LET i == LocateSlot(x, k) IN
  IF HasSlot(x, k)
  THEN [st |-> "upd", x |-> [x EXCEPT !.vs[i] = v], y |-> x, key |-> 0, hint |-> 0, fix |-> <<0, 0>>, lab |-> <<"upd">>]
  ELSE IF Len(x.ks) < N
  THEN [st |-> "ins", x |-> [x EXCEPT !.ks = InsAt(@, i, k), !.vs = InsAt(@, i, v)], y |-> x, key |-> 0,
        hint |-> x.id, fix |-> <<0, 0>>, lab |-> <<"ins">>]
  ELSE LET left == i <= H      \* the new entry goes to the left half
           ks == IF left THEN InsAt(SubSeq(x.ks, 1, H), i, k) ELSE SubSeq(x.ks, 1, H)
           vs == IF left THEN InsAt(SubSeq(x.vs, 1, H), i, v) ELSE SubSeq(x.vs, 1, H)
           rk == IF left THEN SubSeq(x.ks, H + 1, N) ELSE InsAt(SubSeq(x.ks, H + 1, N), i - H, k)
           rv == IF left THEN SubSeq(x.vs, H + 1, N) ELSE InsAt(SubSeq(x.vs, H + 1, N), i - H, v)
       IN [st |-> "split", x |-> [x EXCEPT !.ks = ks, !.vs = vs, !.nx = id], y |-> Leaf(id, rk, rv, x.id, x.nx),
           key |-> rk[1], hint |-> IF left THEN x.id ELSE id, fix |-> <<x.nx, id>>,
           lab |-> <<IF left THEN "splitL" ELSE IF i = H + 1 THEN "splitM" ELSE "splitR">>]

RECURSIVE Ins(_, _, _, _)
Ins(x, k, v, id) ==
  IF IsLeaf(x) THEN InsLeaf(x, k, v, id)
  ELSE LET c == LocateChild(x, k) IN
    With(Ins(x.ch[c], k, v, id), LAMBDA r :
      LET y1 == [x EXCEPT !.ch[c] = r.x, !.ag[c] = AugFor(r.x)] IN
      IF r.st # "split" THEN [r EXCEPT !.x = y1]
      ELSE LET ks == InsAt(y1.ks, c, r.key)
               ch == InsAt(y1.ch, c + 1, r.y)
               ag == InsAt(y1.ag, c + 1, AugFor(r.y))
           IN IF Len(x.ks) < N
              THEN [r EXCEPT !.st = "ins", !.x = Inner(ks, ch, ag), !.lab = Append(@, Where(c, Len(x.ch)))]
              ELSE [r EXCEPT !.x = Inner(SubSeq(ks, 1, H), SubSeq(ch, 1, H + 1), SubSeq(ag, 1, H + 1)),
                             !.y = Inner(SubSeq(ks, H + 2, N + 1), SubSeq(ch, H + 2, N + 2), SubSeq(ag, H + 2, N + 2)),
                             !.key = ks[H + 1],
                             !.lab = Append(@, IF c - 1 < H THEN "isplitL" ELSE IF c - 1 = H THEN "isplitM" ELSE "isplitR")])

\* the whole operation: [root, hint, isnew, old, lab]
InsertRec(root, k, v, id) ==
  With(Ins(root, k, v, id), LAMBDA r :
    LET x == SetPrev(r.x, r.fix[1], r.fix[2])
        y == IF r.st = "split" THEN SetPrev(r.y, r.fix[1], r.fix[2]) ELSE r.y
    IN [root |-> IF r.st = "split" THEN Inner(<<r.key>>, <<x, y>>, <<AugFor(x), AugFor(y)>>) ELSE x,
        hint |-> r.hint, isnew |-> r.st # "upd",
        lab |-> IF r.st = "split" THEN Append(r.lab, "rootsplit") ELSE r.lab])

-----------------------------------------------------------------------------
(* Removal                                                                 *)

CanLend(x) == Len(x.ks) > MinN

\* remove separator i and the child on its right
RemoveSlot(x, i) == [x EXCEPT !.ks = DelAt(@, i), !.ch = DelAt(@, i + 1), !.ag = DelAt(@, i + 1)]
AfterMerge(x) == IF Len(x.ks) >= MinN THEN "done" ELSE "under"

\* the child at c is a leaf with MinN entries (or fewer, after bulk building) and loses entry d
FixLeaf(x, c, d) ==
  LET cur == x.ch[c]
      hasP == c > 1
      hasN == c < Len(x.ch)
      p == IF hasP THEN x.ch[c - 1] ELSE cur
      n == IF hasN THEN x.ch[c + 1] ELSE cur
      pl == hasP /\ CanLend(p)
      nl == hasN /\ CanLend(n)
      act == IF pl /\ nl THEN (IF Len(p.ks) > Len(n.ks) THEN "rotR" ELSE "rotL")
             ELSE IF pl THEN "rotR" ELSE IF nl THEN "rotL" ELSE IF hasP THEN "mergeL" ELSE "mergeR"
      ks == DelAt(cur.ks, d)
      vs == DelAt(cur.vs, d)
      w == act \o "-" \o Where(c, Len(x.ch))
  IN CASE act = "rotR" ->
            LET m == Len(p.ks)
                p1 == [p EXCEPT !.ks = SubSeq(@, 1, m - 1), !.vs = SubSeq(@, 1, m - 1)]
                c1 == [cur EXCEPT !.ks = <<p.ks[m]>> \o ks, !.vs = <<p.vs[m]>> \o vs]
            IN [st |-> "done", hint |-> cur.id, fix |-> <<0, 0>>, lab |-> w,
                x |-> [x EXCEPT !.ch[c - 1] = p1, !.ch[c] = c1, !.ag[c - 1] = AugFor(p1), !.ag[c] = AugFor(c1),
                                !.ks[c - 1] = p.ks[m]]]
       [] act = "rotL" ->
            LET n1 == [n EXCEPT !.ks = Tail(@), !.vs = Tail(@)]
                c1 == [cur EXCEPT !.ks = Append(ks, n.ks[1]), !.vs = Append(vs, n.vs[1])]
            IN [st |-> "done", hint |-> cur.id, fix |-> <<0, 0>>, lab |-> w,
                x |-> [x EXCEPT !.ch[c + 1] = n1, !.ch[c] = c1, !.ag[c + 1] = AugFor(n1), !.ag[c] = AugFor(c1),
                                !.ks[c] = n1.ks[1]]]
       [] act = "mergeL" ->
            LET p1 == [p EXCEPT !.ks = @ \o ks, !.vs = @ \o vs, !.nx = cur.nx]
                x1 == RemoveSlot([x EXCEPT !.ch[c - 1] = p1, !.ag[c - 1] = AugFor(p1)], c - 1)
            IN [st |-> AfterMerge(x1), hint |-> p.id, fix |-> <<cur.nx, p.id>>, lab |-> w, x |-> x1]
       [] act = "mergeR" ->
            LET c1 == [cur EXCEPT !.ks = ks \o n.ks, !.vs = vs \o n.vs, !.nx = n.nx]
                x1 == RemoveSlot([x EXCEPT !.ch[c] = c1, !.ag[c] = AugFor(c1)], c)
            IN [st |-> AfterMerge(x1), hint |-> cur.id, fix |-> <<n.nx, cur.id>>, lab |-> w, x |-> x1]

\* the child at c is an inner node with too few keys
FixInner(x, c) ==
  LET cur == x.ch[c]
      p == IF c > 1 THEN x.ch[c - 1] ELSE cur
      n == IF c < Len(x.ch) THEN x.ch[c + 1] ELSE cur
  IN IF c > 1 /\ CanLend(p)
     THEN LET m == Len(p.ks)
              p1 == Inner(SubSeq(p.ks, 1, m - 1), SubSeq(p.ch, 1, m), SubSeq(p.ag, 1, m))
              c1 == Inner(<<x.ks[c - 1]>> \o cur.ks, <<p.ch[m + 1]>> \o cur.ch, <<p.ag[m + 1]>> \o cur.ag)
          IN [st |-> "done", lab |-> "irotR-" \o Where(c, Len(x.ch)),
              x |-> [x EXCEPT !.ch[c - 1] = p1, !.ch[c] = c1, !.ag[c - 1] = AugFor(p1), !.ag[c] = AugFor(c1),
                              !.ks[c - 1] = p.ks[m]]]
     ELSE IF c < Len(x.ch) /\ CanLend(n)
     THEN LET n1 == Inner(Tail(n.ks), Tail(n.ch), Tail(n.ag))
              c1 == Inner(Append(cur.ks, x.ks[c]), Append(cur.ch, n.ch[1]), Append(cur.ag, n.ag[1]))
          IN [st |-> "done", lab |-> "irotL-" \o Where(c, Len(x.ch)),
              x |-> [x EXCEPT !.ch[c + 1] = n1, !.ch[c] = c1, !.ag[c + 1] = AugFor(n1), !.ag[c] = AugFor(c1),
                              !.ks[c] = n.ks[1]]]
     ELSE LET s == IF c > 1 THEN c - 1 ELSE c
              l == x.ch[s]
              r == x.ch[s + 1]
              l1 == Inner(l.ks \o <<x.ks[s]>> \o r.ks, l.ch \o r.ch, l.ag \o r.ag)
              x1 == RemoveSlot(x, s)
              x2 == [x1 EXCEPT !.ch[s] = l1, !.ag[s] = AugFor(l1)]
          IN [st |-> AfterMerge(x2), x |-> x2, lab |-> (IF c > 1 THEN "imergeL-" ELSE "imergeR-") \o Where(c, Len(x.ch))]

RECURSIVE Del(_, _)
Del(x, k) ==   \* k is in the tree
  IF IsLeaf(x)
  THEN LET d == LocateSlot(x, k) IN
       IF CanLend(x)
       THEN [st |-> "done", x |-> [x EXCEPT !.ks = DelAt(@, d), !.vs = DelAt(@, d)], hint |-> 0, fix |-> <<0, 0>>, lab |-> <<"del">>]
       ELSE [st |-> "leafunder", x |-> x, hint |-> 0, fix |-> <<0, 0>>, lab |-> <<>>]
  ELSE LET c == LocateChild(x, k) IN
    With(Del(x.ch[c], k), LAMBDA r :
      CASE r.st = "done" -> [r EXCEPT !.x = [x EXCEPT !.ch[c] = r.x, !.ag[c] = AugFor(r.x)]]
        [] r.st = "leafunder" ->
             With(FixLeaf(x, c, LocateSlot(r.x, k)), LAMBDA f :
               [st |-> f.st, x |-> f.x, hint |-> f.hint, fix |-> f.fix, lab |-> <<f.lab>>])
        [] r.st = "under" ->
             With(FixInner([x EXCEPT !.ch[c] = r.x], c), LAMBDA f :
               [r EXCEPT !.st = f.st, !.x = f.x, !.lab = Append(@, f.lab)]))

DeleteRec(root, k) ==
  With(Del(root, k), LAMBDA r :
    LET x == SetPrev(r.x, r.fix[1], r.fix[2])
    IN IF r.st = "leafunder"
       THEN LET d == LocateSlot(x, k) IN
            [root |-> [x EXCEPT !.ks = DelAt(@, d), !.vs = DelAt(@, d)], hint |-> 0, lab |-> <<"del-root">>]
       ELSE IF r.st = "under" /\ Len(x.ks) = 0 THEN [root |-> x.ch[1], hint |-> r.hint, lab |-> Append(r.lab, "collapse")]
       ELSE [root |-> x, hint |-> r.hint, lab |-> r.lab])

-----------------------------------------------------------------------------
(* Bulk building from sorted items (later ones replace earlier ones)       *)

Dedup(items) == FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][1] = x[1] THEN [a EXCEPT ![Len(a)] = x] ELSE Append(a, x), <<>>, items)

CeilDiv(a, b) == (a + b - 1) \div b
PackLeaves(items) ==
  LET n == Len(items)
      m == CeilDiv(n, N)
      Chunk(j) == SubSeq(items, (j - 1) * N + 1, IF j * N < n THEN j * N ELSE n)
  IN [j \in 1..m |-> Leaf(j, [i \in 1..Len(Chunk(j)) |-> Chunk(j)[i][1]], [i \in 1..Len(Chunk(j)) |-> Chunk(j)[i][2]],
                          j - 1, IF j < m THEN j + 1 ELSE 0)]

RECURSIVE FirstKey(_)
FirstKey(x) == IF IsLeaf(x) THEN x.ks[1] ELSE FirstKey(x.ch[1])

MakeInner(ch) == Inner([i \in 1..(Len(ch) - 1) |-> FirstKey(ch[i + 1])], ch, [i \in 1..Len(ch) |-> AugFor(ch[i])])
RECURSIVE Layer(_)
Layer(nodes) ==   \* one layer of inner nodes over nodes
  LET n == Len(nodes)
      t == IF n = N + 2 THEN N ELSE IF n < N + 1 THEN n ELSE N + 1
  IN IF n = 0 THEN <<>> ELSE <<MakeInner(SubSeq(nodes, 1, t))>> \o Layer(SubSeq(nodes, t + 1, n))
RECURSIVE Tower(_)
Tower(nodes) == IF Len(nodes) = 1 THEN nodes[1] ELSE Tower(Layer(nodes))

EmptyRoot == Leaf(1, <<>>, <<>>, 0, 0)
BulkRoot(items) == With(Dedup(items), LAMBDA d : IF d = <<>> THEN EmptyRoot ELSE Tower(PackLeaves(d)))
BulkLeaves(items) == With(Dedup(items), LAMBDA d : IF d = <<>> THEN 1 ELSE CeilDiv(Len(d), N))

-----------------------------------------------------------------------------
(* Lookup through a remembered leaf                                        *)

InRange(l, k) == /\ l.pv # 0 => Len(l.ks) > 0 /\ k >= l.ks[1]
                 /\ l.nx # 0 => Len(l.ks) > 0 /\ k <= l.ks[Len(l.ks)]

NoLeaf == Leaf(1, <<>>, <<>>, 0, 0)
FindLeaf(ls, id) == SelectSeq(ls, LAMBDA l : l.id = id)

\* the leaf used for k, given a remembered leaf (0 or a leaf that is gone: none)
HintHit(ls, hint, k) == With(FindLeaf(ls, hint), LAMBDA f : Len(f) = 1 /\ InRange(f[1], k))
LeafFor(root, ls, hint, k) == IF HintHit(ls, hint, k) THEN FindLeaf(ls, hint)[1] ELSE DescendTo(root, k)

ValueIn(l, k) == IF HasSlot(l, k) THEN l.vs[LocateSlot(l, k)] ELSE 0

-----------------------------------------------------------------------------
(* Cursors: key, remembered leaf and offset                                *)

LeafById(ls, id) == FindLeaf(ls, id)[1]
EntryAt(l, i) == <<l.ks[i], l.vs[i]>>

\* the leaf of a cursor: its own hint, then the hint of the tree
CursorLeaf(root, ls, hint, k, id) ==
  IF HintHit(ls, id, k) THEN FindLeaf(ls, id)[1] ELSE LeafFor(root, ls, hint, k)

CurNext(root, ls, hint, k, id, off) ==
  With(CursorLeaf(root, ls, hint, k, id), LAMBDA l :
    LET o == IF off <= Len(l.ks) /\ off >= 1 /\ l.ks[off] = k THEN off + 1
             ELSE IF HasSlot(l, k) THEN LocateSlot(l, k) + 1 ELSE LocateSlot(l, k)
    IN IF o <= Len(l.ks) THEN [e |-> EntryAt(l, o), id |-> l.id, off |-> o]
       ELSE IF l.nx = 0 THEN [e |-> <<>>, id |-> 0, off |-> 0]
       ELSE [e |-> EntryAt(LeafById(ls, l.nx), 1), id |-> l.nx, off |-> 1])

CurPrev(root, ls, hint, k, id, off) ==
  With(CursorLeaf(root, ls, hint, k, id), LAMBDA l :
    LET o == IF off <= Len(l.ks) /\ off >= 1 /\ l.ks[off] = k THEN off - 1 ELSE LocateSlot(l, k) - 1
    IN IF o >= 1 THEN [e |-> EntryAt(l, o), id |-> l.id, off |-> o]
       ELSE IF l.pv = 0 THEN [e |-> <<>>, id |-> 0, off |-> 0]
       \* the hint stays the leaf the cursor came from
       ELSE With(LeafById(ls, l.pv), LAMBDA p : [e |-> EntryAt(p, Len(p.ks)), id |-> l.id, off |-> Len(p.ks)]))

CurValue(root, ls, hint, k, id, off) ==
  With(CursorLeaf(root, ls, hint, k, id), LAMBDA l :
    IF off <= Len(l.ks) /\ off >= 1 /\ l.ks[off] = k THEN l.vs[off] ELSE ValueIn(l, k))

-----------------------------------------------------------------------------
(* Iteration along the chain                                               *)

RECURSIVE LeftmostLeaf(_)
LeftmostLeaf(x) == IF IsLeaf(x) THEN x ELSE LeftmostLeaf(x.ch[1])
RECURSIVE RightmostLeaf(_)
RightmostLeaf(x) == IF IsLeaf(x) THEN x ELSE RightmostLeaf(x.ch[Len(x.ch)])

Pairs(l) == [i \in 1..Len(l.ks) |-> <<l.ks[i], l.vs[i]>>]
RECURSIVE Forward(_, _, _)
Forward(ls, l, fuel) == IF l.nx = 0 \/ fuel = 0 THEN Pairs(l) ELSE Pairs(l) \o Forward(ls, LeafById(ls, l.nx), fuel - 1)
RECURSIVE Backward(_, _, _)
Backward(ls, l, fuel) == IF l.pv = 0 \/ fuel = 0 THEN Reverse(Pairs(l)) ELSE Reverse(Pairs(l)) \o Backward(ls, LeafById(ls, l.pv), fuel - 1)

-----------------------------------------------------------------------------
(* What must hold of a tree                                                *)

Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
AllEntries(ls) == FoldLeft(LAMBDA a, l : a \o Pairs(l), <<>>, ls)

\* lin: "ins", "packed" (fresh from bulk building) or "bulk" (modified since)
RECURSIVE NodeOK(_, _, _, _, _)
NodeOK(x, lo, hi, lin, isroot) ==      \* keys in lo..hi-1
  /\ Ascending(x.ks)
  /\ \A i \in 1..Len(x.ks) : lo <= x.ks[i] /\ x.ks[i] < hi
  /\ Len(x.ks) <= N
  /\ ~isroot => Len(x.ks) >= 1 /\ (lin = "ins" => Len(x.ks) >= MinN)
  /\ IF IsLeaf(x) THEN Len(x.vs) = Len(x.ks)
     ELSE /\ Len(x.ks) >= 1 /\ Len(x.ch) = Len(x.ks) + 1 /\ Len(x.ag) = Len(x.ch)
          /\ \A i \in 1..Len(x.ch) :
               /\ DepthOf(x.ch[i]) = DepthOf(x.ch[1])
               /\ NodeOK(x.ch[i], IF i = 1 THEN lo ELSE x.ks[i - 1], IF i = Len(x.ch) THEN hi ELSE x.ks[i], lin, FALSE)

RECURSIVE AugsOK(_)
AugsOK(x) == IsLeaf(x) \/ \A i \in 1..Len(x.ch) :
               /\ AugsOK(x.ch[i])
               /\ x.ag[i] = FoldLeft(LAMBDA a, l : a \o EntriesOf(l.ks, l.vs), <<>>, LeavesOf(x.ch[i]))

ChainOK(ls) == \A i \in 1..Len(ls) :
  /\ ls[i].pv = IF i = 1 THEN 0 ELSE ls[i - 1].id
  /\ ls[i].nx = IF i = Len(ls) THEN 0 ELSE ls[i + 1].id
  /\ \A j \in 1..Len(ls) : ls[i].id = ls[j].id => i = j
=============================================================================
