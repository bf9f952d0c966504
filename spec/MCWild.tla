-------------------------------- MODULE MCWild --------------------------------
(***************************************************************************)
(* The design (BPTree) under an ordering that breaks its promises: every   *)
(* search answers what `dice` says, whatever the keys are.  One step from  *)
(* every tree of the family of MCStep (keys are mere names here, so these  *)
(* trees stand for all trees of their shape); every choice of child at     *)
(* every level and of slot in the leaf.  Everything about the shape of the *)
(* tree, the chain, the counts and the augmentations still holds           *)
(* afterwards, and the step is one of WildAPI.                             *)
(***************************************************************************)
EXTENDS MCStep

Loose == INSTANCE WildAPI

CONSTANT Rolls   \* how many different answers per level
VARIABLE dice    \* per height: a number; and whether the key counts as found

\* these take the place of the operators of BPTree
DLocateChild(x, k) == 1 + (dice.at[DepthOf(x) + 1] % Len(x.ch))
DHasSlot(x, k) == dice.found /\ Len(x.ks) > 0
DLocateSlot(x, k) == 1 + (dice.at[1] % (IF DHasSlot(x, k) THEN Len(x.ks) ELSE Len(x.ks) + 1))

\* distinct values, so that entries keep their identity
RECURSIVE Number(_)
Number(x) == IF IsLeaf(x) THEN [x EXCEPT !.vs = [i \in 1..Len(x.ks) |-> 1000 + x.ks[i]]]
             ELSE With([i \in 1..Len(x.ch) |-> Number(x.ch[i])], LAMBDA ch : [x EXCEPT !.ch = ch, !.ag = [i \in 1..Len(ch) |-> AugFor(ch[i])]])

New == 501       \* the key that is inserted, with value 1501
Line(x) == AllEntries(LeavesOf(x))

wvars == <<vars, step, dice>>

WildInit ==
  \E n \in RootSizes : \E is \in Mostly(n, InnerSizes, OddInner) :
  \E ls \in Mostly(Sum(is, n), LeafSizes, Odd) :
  \E r \in {Number(Build(is, ls, 0))} :
    /\ root = r /\ raug = AugFor(r) /\ cnt = Sum(ls, Len(ls)) /\ nid = Len(ls) + 1
    /\ hint = 0 /\ lin = "ins" /\ cur = [c \in Cursors |-> NoCur]
    /\ op = <<"start">> /\ res = <<>> /\ gone = {} /\ lab = <<"start">>
    /\ step = 0 /\ dice = [at |-> <<0, 0, 0>>, found |-> FALSE]

\* small trees: a root leaf, or leaves under one inner node
SmallInit ==
  \E m \in 0..N : \E r \in {IF m = 0 THEN EmptyRoot ELSE Number(MkLeaf(<<m>>, 1, AVal))} :
    /\ root = r /\ raug = AugFor(r) /\ cnt = m /\ nid = 2
    /\ hint = 0 /\ lin = "ins" /\ cur = [c \in Cursors |-> NoCur]
    /\ op = <<"start">> /\ res = <<>> /\ gone = {} /\ lab = <<"start">>
    /\ step = 0 /\ dice = [at |-> <<0, 0, 0>>, found |-> FALSE]
FlatInit ==
  \E m \in 2..(N + 1) : \E ls \in Mostly(m, LeafSizes, Odd) :
  \E r \in {Number(With([j \in 1..m |-> MkLeaf(ls, j, AVal)], LAMBDA leaves : MkInner(leaves, 0)))} :
    /\ root = r /\ raug = AugFor(r) /\ cnt = Sum(ls, m) /\ nid = m + 1
    /\ hint = 0 /\ lin = "ins" /\ cur = [c \in Cursors |-> NoCur]
    /\ op = <<"start">> /\ res = <<>> /\ gone = {} /\ lab = <<"start">>
    /\ step = 0 /\ dice = [at |-> <<0, 0, 0>>, found |-> FALSE]

AnyInit == WildInit \/ SmallInit \/ FlatInit

\* first the dice fall, then the call is made
Roll == /\ step = 0 /\ step' = 1
        /\ \E a, b, c \in 0..(Rolls - 1), f \in BOOLEAN :
             /\ DepthOf(root) < 2 => c = 0
             /\ DepthOf(root) < 1 => b = 0
             /\ dice' = [at |-> <<a, b, c>>, found |-> f]
        /\ UNCHANGED vars

LeafHit == DescendTo(root, New)
WildInsert ==
  \E r \in {InsertRec(root, New, 1501, nid)} :
    /\ root' = r.root /\ raug' = AugFor(r.root) /\ nid' = nid + 1
    /\ cnt' = IF r.isnew THEN cnt + 1 ELSE cnt
    /\ res' = IF r.isnew THEN <<>> ELSE <<LeafHit.vs[DLocateSlot(LeafHit, New)]>>
    /\ op' = <<"insert">> /\ lab' = r.lab
WildDelete ==
  /\ UNCHANGED nid
  /\ op' = <<"delete">>
  /\ IF ~DHasSlot(LeafHit, New)
     THEN UNCHANGED <<root, raug, cnt>> /\ res' = <<>> /\ lab' = <<"miss">>
     ELSE \E r \in {DeleteRec(root, New)} :
            /\ root' = r.root /\ raug' = AugFor(r.root) /\ cnt' = cnt - 1
            /\ res' = <<LeafHit.vs[DLocateSlot(LeafHit, New)]>> /\ lab' = r.lab
WildStep == /\ step = 1 /\ step' = 2
            /\ (WildInsert \/ WildDelete)
            /\ UNCHANGED <<hint, lin, cur, gone, dice>>
WildNext == Roll \/ WildStep

\* the shape, without the order
RECURSIVE ShapedOK(_, _)
ShapedOK(x, isroot) ==
  /\ Len(x.ks) <= N
  /\ ~isroot => Len(x.ks) >= MinN
  /\ IF IsLeaf(x) THEN Len(x.vs) = Len(x.ks)
     ELSE /\ Len(x.ks) >= 1 /\ Len(x.ch) = Len(x.ks) + 1 /\ Len(x.ag) = Len(x.ch)
          /\ \A i \in 1..Len(x.ch) : DepthOf(x.ch[i]) = DepthOf(x.ch[1]) /\ ShapedOK(x.ch[i], FALSE)
Shaped == ShapedOK(root, TRUE)
Chained == ChainOK(LeavesOf(root))
Counted == AugsOK(root) /\ raug = AugFor(root)
Counts == cnt = Len(Line(root))

Refines == [][step = 0 \/ (IF op'[1] = "insert" THEN Loose!Inserted(Line(root), Line(root'), New, 1501, res')
                                           ELSE Loose!Removed(Line(root), Line(root'), res'))]_wvars
WildView == <<root, cnt, step, dice>>
=============================================================================
